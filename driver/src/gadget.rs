//! A gadget is one generated test situation: it expands to commands and to the conditions their answers must meet.
//! Conditions are absolute (against the reference model or against the definition) or relative (between answers of the
//! same backend), as the property asks.
use crate::fips::{self, B16};
use crate::gen::{rand::Rng, Gen};
use crate::op::{Hx, Op};
use crate::proto::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug)]
pub enum Check {
    /// answer i is OK with exactly these bytes
    Is(usize, Vec<u8>, &'static str),
    /// answer i is OK with one of these
    IsOr(usize, Vec<u8>, Vec<u8>, &'static str),
    /// answer i is OK (content not judged)
    Ok(usize),
    /// answer i ends with these bytes
    Ends(usize, Vec<u8>, &'static str),
    /// answer i begins with these bytes
    Starts(usize, Vec<u8>, &'static str),
    /// answer i is a panic
    Panics(usize, &'static str),
    /// answers i and j: equal status, and the bytes i[a..a+n] and j[b..b+n] are equal
    Eq(usize, usize, usize, usize, usize, &'static str),
    /// answers equal as wholes
    Same(usize, usize, &'static str),
    /// answer i holds the answers of threads, each with its commands and checks
    Threads(usize, Vec<Vec<(Vec<Op>, Vec<Check>)>>),
}

/// How a cipher object of a role came to be.
pub const VIA_KEY: u8 = 0; // From<key>
pub const VIA_OTHER: u8 = 1; // the other role from the key, then switched
pub const VIA_CLONE: u8 = 2; // clone of one from the key
pub const VIA_ROUND: u8 = 3; // switched twice
pub const VIA_CLONE_FROM: u8 = 4; // clone_from over a cipher with another key

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Gadget {
    /// C01/C02: blocks under one key against the model; flags: the object is reused for all blocks
    Cipher { size: u8, role: u8, via: u8, key: Hx, blocks: Hx },
    /// C02: one direction then the other gives the start value back (any width)
    RoundTrip { size: u8, first: u8, via: u8, w: u8, key: Hx, data: Hx },
    /// C03: wide call vs one call per block on the same object
    Wide { size: u8, role: u8, via: u8, w: u8, key: Hx, data: Hx },
    /// C04: steps (role, src, kind, dst) over slots 0..3; kind 0 switch, 1 clone, 2 new object from key a, 3 from key b,
    /// 5 clone_from
    Roles { size: u8, a: Hx, b: Hx, steps: Vec<(u8, u8, u8, u8)>, w: u8, data: Hx },
    /// C05
    Round { op: u8, state: Hx, key: Hx },
    /// C06: op 0 mc, 1 imc
    Mix { op: u8, state: Hx },
    /// C07
    WideRound { op: u8, w: u8, state: Hx, keys: Hx },
    /// C08
    Chain { dir: u8, w: u8, state: Hx, keys: Hx },
    /// C09
    Bits { w: u8, op: u8, a: Hx, b: Hx, alias: bool },
    /// C10: b built in way `how`
    Equal { w: u8, a: Hx, b: Hx, how: u8 },
    Zeros { w: u8, v: Hx, how: u8 },
    /// C11
    Convert { w: u8, kind: u8, align: u8, data: Hx },
    Constant { w: u8, idx: u8, kind: u8 },
    /// C12
    Slice { w: u8, place: u8, off: u8, data: Hx },
    /// C13
    Store { w: u8, place: u8, off: u8, len: u16, fill: u8, value: Hx },
    /// C14: kind of composition, 64 bytes of material, registers
    Compose { kind: u8, data: Hx, regs: [u8; 4] },
    /// C15
    Format {
        w: u8,
        kind: u8,
        alt: u8,
        cap: u16,
        value: Hx,
        #[serde(default)]
        once: u8,
    },
    /// C08: `count` keys derived from a few
    LongChain { dir: u8, w: u8, count: u32, state: Hx, keys: Hx },
    /// C12, C13: slices of any length
    Big { store: bool, w: u8, off: u8, len: u64, fill: u8, value: Hx },
    /// any single command (C16, C18, C20)
    Raw(Op),
    /// C18: concurrent run vs the same computations one after the other
    Concurrent { size: u8, n: u8, iters: u16, variant: u8, key: Hx, starts: Hx },
    /// C18: threads that start at the same moment with situations of their own
    Race { threads: Vec<(u16, Vec<Gadget>)> },
    /// C18: n applications on one object vs the same in two halves on two objects
    Repeat { size: u8, role: u8, w: u8, n: u16, key: Hx, data: Hx },
    /// C18: the same situation n times
    Loop { n: u32, what: Box<Gadget> },
    /// C18: the same work before and after other ciphers with related keys were built and used
    Interleave { size: u8, role: u8, w: u8, key: Hx, others: Vec<Hx>, data: Hx },
}

fn b16(x: &[u8]) -> B16 {
    x.try_into().unwrap()
}

struct Bld {
    ops: Vec<Op>,
    checks: Vec<Check>,
}
impl Bld {
    fn op(&mut self, o: Op) -> usize {
        self.ops.push(o);
        self.ops.len() - 1
    }
    fn load(&mut self, w: u8, dst: u8, data: &[u8]) -> usize {
        self.op(Op::Load { w, dst, kind: LK_NEW, align: 0, data: Hx(data.to_vec()) })
    }
    fn is(&mut self, i: usize, v: Vec<u8>, what: &'static str) {
        self.checks.push(Check::Is(i, v, what));
    }
    fn cipher(&mut self, size: u8, role: u8, slot: u8, via: u8, key: &Hx) {
        match via {
            VIA_OTHER => {
                self.op(Op::Key { size, role: 1 - role, slot, key: key.clone() });
                self.op(Op::Switch { size, role: 1 - role, slot, dst: slot });
            }
            VIA_CLONE => {
                let tmp = (slot + 1) % NSLOT as u8;
                self.op(Op::Key { size, role, slot: tmp, key: key.clone() });
                self.op(Op::CloneKey { size, role, slot: tmp, dst: slot, from: 0 });
            }
            VIA_CLONE_FROM => {
                let tmp = (slot + 1) % NSLOT as u8;
                let other = Hx((0..key.0.len()).map(|i| const_byte(13, i)).collect());
                self.op(Op::Key { size, role, slot: tmp, key: key.clone() });
                self.op(Op::Key { size, role, slot, key: other });
                self.op(Op::CloneKey { size, role, slot: tmp, dst: slot, from: 1 });
            }
            VIA_ROUND => {
                self.op(Op::Key { size, role, slot, key: key.clone() });
                self.op(Op::Switch { size, role, slot, dst: slot });
                self.op(Op::Switch { size, role: 1 - role, slot, dst: slot });
            }
            _ => {
                self.op(Op::Key { size, role, slot, key: key.clone() });
            }
        }
    }
    fn crypt(&mut self, size: u8, role: u8, slot: u8, w: u8, dst: u8, src: u8) -> usize {
        self.op(Op::Crypt { size, role, slot, w, dst, src })
    }
    /// Puts the value into register dst of width w in the given way; every way yields the same bytes.
    fn make(&mut self, w: u8, dst: u8, v: &[u8], how: u8) -> usize {
        let n = v.len();
        match how % 10 {
            1 => {
                let mask: Vec<u8> = (0..n).map(|i| const_byte(9, i)).collect();
                let other: Vec<u8> = v.iter().zip(&mask).map(|(a, b)| a ^ b).collect();
                self.load(w, 4, &mask);
                self.load(w, 5, &other);
                self.op(Op::Bin { w, dst, a: 4, b: 5, op: BI_XOR })
            }
            2 => {
                let other: Vec<u8> = v.iter().map(|a| !a).collect();
                self.load(w, 5, &other);
                self.op(Op::Un { w, dst, src: 5, op: UN_NOT })
            }
            3 => {
                self.load(w, 5, v);
                self.op(Op::Un { w, dst, src: 5, op: UN_CLONE })
            }
            4 if w == 2 => {
                self.load(1, 4, &v[..16]);
                self.load(1, 5, &v[16..]);
                self.op(Op::Move { kind: MV_BB_W, d: dst, s: [4, 5, 0, 0] })
            }
            4 if w == 4 => {
                for i in 0..4 {
                    self.load(1, 2 + i, &v[16 * i as usize..][..16]);
                }
                self.op(Op::Move { kind: MV_BBBB_Q, d: dst, s: [2, 3, 4, 5] })
            }
            5 if w == 4 => {
                self.load(2, 4, &v[..32]);
                self.load(2, 5, &v[32..]);
                self.op(Op::Move { kind: MV_WW_Q, d: dst, s: [4, 5, 0, 0] })
            }
            6 => self.op(Op::Load { w, dst, kind: LK_SLICE, align: 3, data: Hx(v.to_vec()) }),
            7 => {
                // through a round whose inverse is known: x = enc_last(y, k)
                let k: Vec<u8> = (0..n).map(|i| const_byte(11, i)).collect();
                let y: Vec<u8> = v.chunks(16).zip(k.chunks(16)).flat_map(|(a, k)| fips::inv_sub_bytes(fips::inv_shift_rows(fips::xor(b16(a), b16(k))))).collect();
                self.load(w, 4, &y);
                self.load(w, 5, &k);
                self.op(Op::Bin { w, dst, a: 4, b: 5, op: BI_ENC_LAST })
            }
            8 if w == 1 => {
                self.load(1, 5, &fips::inv_mix_columns(b16(v)));
                self.op(Op::Un { w, dst, src: 5, op: UN_MC })
            }
            9 => {
                let old: Vec<u8> = (0..n).map(|i| const_byte(12, i)).collect();
                self.load(w, dst, &old);
                self.load(w, 5, v);
                self.op(Op::Un { w, dst, src: 5, op: UN_CLONE_FROM })
            }
            _ => self.load(w, dst, v),
        }
    }
}

pub fn hexs(v: &[u8], upper: bool) -> String {
    v.iter().map(|x| if upper { format!("{x:02X}") } else { format!("{x:02x}") }).collect()
}

/// Text of a block as the property states it, written without the formatting traits of the library.
pub fn block_text(v: &[u8], kind: u8, alt: bool) -> String {
    match (kind, alt) {
        (FM_DISPLAY | FM_DEBUG, false) => hexs(v, false),
        (FM_DISPLAY | FM_DEBUG, true) => hexs(v, true),
        (FM_LHEX, false) => hexs(v, false),
        (FM_LHEX, true) => format!("0x{}", hexs(v, false)),
        (FM_UHEX, false) => hexs(v, true),
        (FM_UHEX, true) => format!("0X{}", hexs(v, true)),
        (_, a) => {
            let mut s = if a { "0b".to_string() } else { String::new() };
            for x in v {
                for k in (0..8).rev() {
                    s.push(if x >> k & 1 == 1 { '1' } else { '0' });
                }
            }
            s
        }
    }
}

pub fn wide_text(v: &[u8], alt: bool) -> String {
    // the tuple of the blocks, as core formats tuples
    let parts: Vec<String> = v.chunks(16).map(|b| block_text(b, FM_DEBUG, alt)).collect();
    if alt {
        let mut s = "(\n".to_string();
        for p in parts {
            s += &format!("    {p},\n");
        }
        s + ")"
    } else {
        format!("({})", parts.join(", "))
    }
}

impl Gadget {
    pub fn expand(&self) -> (Vec<Op>, Vec<Check>) {
        let mut b = Bld { ops: vec![], checks: vec![] };
        match self {
            Gadget::Cipher { size, role, via, key, blocks } => {
                b.cipher(*size, *role, 0, *via, key);
                let rk = fips::key_expansion(&key.0);
                let f = if *role == 0 { fips::encrypt } else { fips::decrypt };
                for (i, blk) in blocks.0.chunks(16).enumerate() {
                    let src = (i % 5) as u8;
                    b.load(1, src, blk);
                    let c = b.crypt(*size, *role, 0, 1, 5, src);
                    b.is(c, f(&rk, b16(blk)).to_vec(), if *role == 0 { "ciphertext" } else { "plaintext" });
                }
            }
            Gadget::RoundTrip { size, first, via, w, key, data } => {
                b.cipher(*size, *first, 0, VIA_KEY, key);
                b.cipher(*size, 1 - *first, 1, *via, key);
                let l = b.load(*w, 0, &data.0);
                b.crypt(*size, *first, 0, *w, 1, 0);
                let r = b.crypt(*size, 1 - *first, 1, *w, 2, 1);
                b.is(l, data.0.clone(), "loaded value");
                b.is(r, data.0.clone(), "value after both directions");
            }
            Gadget::Wide { size, role, via, w, key, data } => {
                b.cipher(*size, *role, 0, *via, key);
                b.load(*w, 0, &data.0);
                let r = b.crypt(*size, *role, 0, *w, 1, 0);
                for i in 0..*w as usize {
                    b.load(1, 2, &data.0[16 * i..][..16]);
                    let s = b.crypt(*size, *role, 0, 1, 3, 2);
                    b.checks.push(Check::Eq(r, 16 * i, s, 0, 16, "block of the group vs single call"));
                }
            }
            Gadget::Roles { size, a, b: kb, steps, w, data } => {
                // which key each slot holds, by role
                let mut held = [[None::<bool>; 3]; 2];
                let key_of = |x: bool| if x { kb.clone() } else { a.clone() };
                b.op(Op::Key { size: *size, role: 0, slot: 0, key: a.clone() });
                held[0][0] = Some(false);
                for (role, src, kind, dst) in steps {
                    let (r, s, d) = ((*role % 2) as usize, (*src % 3) as usize, (*dst % 3) as usize);
                    match kind % 4 {
                        0 => {
                            if held[r][s].is_some() {
                                b.op(Op::Switch { size: *size, role: r as u8, slot: s as u8, dst: d as u8 });
                                held[1 - r][d] = held[r][s];
                            }
                        }
                        1 => {
                            if held[r][s].is_some() {
                                b.op(Op::CloneKey { size: *size, role: r as u8, slot: s as u8, dst: d as u8, from: *kind / 4 });
                                held[r][d] = held[r][s];
                            }
                        }
                        k => {
                            b.op(Op::Key { size: *size, role: r as u8, slot: d as u8, key: key_of(k == 3) });
                            held[r][d] = Some(k == 3);
                        }
                    }
                }
                b.load(*w, 0, &data.0);
                for r in 0..2u8 {
                    for x in [false, true] {
                        let slots: Vec<u8> = (0..3).filter(|s| held[r as usize][*s as usize] == Some(x)).collect();
                        if slots.is_empty() {
                            continue;
                        }
                        b.op(Op::Key { size: *size, role: r, slot: 3, key: key_of(x) });
                        let want = b.crypt(*size, r, 3, *w, 1, 0);
                        for s in slots {
                            let got = b.crypt(*size, r, s, *w, 2, 0);
                            b.checks.push(Check::Same(got, want, "object after role switches vs built from the key"));
                        }
                    }
                }
            }
            Gadget::Round { op, state, key } => {
                b.load(1, 0, &state.0);
                b.load(1, 1, &key.0);
                let r = b.op(Op::Bin { w: 1, dst: 2, a: 0, b: 1, op: *op });
                let f = match *op {
                    BI_ENC => fips::enc,
                    BI_DEC => fips::dec,
                    BI_ENC_LAST => fips::enc_last,
                    _ => fips::dec_last,
                };
                b.is(r, f(b16(&state.0), b16(&key.0)).to_vec(), "round");
            }
            Gadget::Mix { op, state } => {
                b.load(1, 0, &state.0);
                let first = if *op == 0 { UN_MC } else { UN_IMC };
                let second = if *op == 0 { UN_IMC } else { UN_MC };
                let r = b.op(Op::Un { w: 1, dst: 1, src: 0, op: first });
                let s = b.op(Op::Un { w: 1, dst: 2, src: 1, op: second });
                let f = if *op == 0 { fips::mix_columns } else { fips::inv_mix_columns };
                b.is(r, f(b16(&state.0)).to_vec(), "mixed columns");
                b.is(s, state.0.clone(), "mixed and unmixed");
            }
            Gadget::WideRound { op, w, state, keys } => {
                b.load(*w, 0, &state.0);
                b.load(*w, 1, &keys.0);
                let r = b.op(Op::Bin { w: *w, dst: 2, a: 0, b: 1, op: *op });
                for i in 0..*w as usize {
                    b.load(1, 0, &state.0[16 * i..][..16]);
                    b.load(1, 1, &keys.0[16 * i..][..16]);
                    let s = b.op(Op::Bin { w: 1, dst: 2, a: 0, b: 1, op: *op });
                    b.checks.push(Check::Eq(r, 16 * i, s, 0, 16, "lane vs single-block round"));
                }
            }
            Gadget::Chain { dir, w, state, keys } => {
                b.load(*w, 0, &state.0);
                let r = b.op(Op::Chain { w: *w, dst: 1, src: 0, dir: *dir, keys: keys.clone() });
                if keys.0.is_empty() {
                    b.checks.push(Check::Panics(r, "empty key list"));
                } else {
                    let mut last = 0;
                    for (i, k) in keys.0.chunks(16 * *w as usize).enumerate() {
                        b.load(*w, 3, k);
                        let op = if i == 0 {
                            BI_XOR
                        } else if *dir == 0 {
                            BI_ENC
                        } else {
                            BI_DEC
                        };
                        last = b.op(Op::Bin { w: *w, dst: 2, a: if i == 0 { 0 } else { 2 }, b: 3, op });
                    }
                    b.checks.push(Check::Same(r, last, "chain vs repeated rounds"));
                }
            }
            Gadget::LongChain { dir, w, count, state, keys } => {
                let n = 16 * *w as usize;
                b.load(*w, 0, &state.0);
                let r = b.op(Op::LongChain { w: *w, dst: 1, src: 0, dir: *dir, count: *count, keys: keys.clone() });
                if *count == 0 {
                    b.checks.push(Check::Panics(r, "empty key list"));
                } else {
                    b.checks.push(Check::Ok(r));
                    b.checks.push(Check::Eq(r, 0, r, n, n, "chain vs repeated rounds"));
                }
            }
            Gadget::Big { store, w, off, len, fill, value } => {
                let n = 16 * *w as usize;
                b.load(*w, 0, &value.0);
                let r = b.op(Op::Big { store: *store, w: *w, reg: 0, off: *off, len: *len, fill: *fill, data: value.clone() });
                let want = if *len >= n as u64 {
                    [&[1], &value.0[..], &[1][..*store as usize]].concat()
                } else {
                    [&[0u8][..], &len.to_le_bytes()].concat()
                };
                if *store && *len < n as u64 {
                    b.checks.push(Check::Panics(r, "short destination"));
                } else {
                    let what = if *store { "memory after the store" } else { "result of the slice conversion" };
                    b.checks.push(Check::IsOr(r, want, vec![2], what));
                }
            }
            Gadget::Bits { w, op, a, b: y, alias } => {
                b.load(*w, 0, &a.0);
                if !alias {
                    b.load(*w, 1, &y.0);
                }
                let (yr, y) = if *alias { (0, &a.0) } else { (1, &y.0) };
                let f = |p: u8, q: u8| match *op {
                    BI_AND | BI_AND_ASSIGN => p & q,
                    BI_OR | BI_OR_ASSIGN => p | q,
                    BI_XOR | BI_XOR_ASSIGN => p ^ q,
                    _ => !p,
                };
                let want: Vec<u8> = a.0.iter().zip(y).map(|(p, q)| f(*p, *q)).collect();
                let r = if *op <= BI_XOR_ASSIGN {
                    b.op(Op::Bin { w: *w, dst: 2, a: 0, b: yr, op: *op })
                } else {
                    b.op(Op::Un { w: *w, dst: 2, src: 0, op: UN_NOT })
                };
                b.is(r, want, "bitwise result");
                let g = b.op(Op::Get { w: *w, src: 0, kind: GK_INTO });
                b.is(g, a.0.clone(), "left operand after the call");
                let g = b.op(Op::Get { w: *w, src: yr, kind: GK_INTO });
                if !(*op > BI_XOR_ASSIGN && yr == 1) {
                    b.is(g, y.clone(), "right operand after the call");
                }
            }
            Gadget::Equal { w, a, b: y, how } => {
                let l = b.make(*w, 0, &a.0, how / 16);
                let r = b.make(*w, 1, &y.0, how % 16);
                // the conversion is what the property compares with
                b.is(l, a.0.clone(), "left value");
                b.is(r, y.0.clone(), "right value");
                let eq = (a.0 == y.0) as u8;
                for (p, q) in [(0, 1), (1, 0)] {
                    let e = b.op(Op::Pred { w: *w, a: p, b: q, op: PR_EQ });
                    b.is(e, vec![eq], "==");
                    let e = b.op(Op::Pred { w: *w, a: p, b: q, op: PR_NE });
                    b.is(e, vec![1 - eq], "!=");
                }
                let e = b.op(Op::Pred { w: *w, a: 0, b: 0, op: PR_EQ });
                b.is(e, vec![1], "== itself");
            }
            Gadget::Zeros { w, v, how } => {
                let l = b.make(*w, 0, &v.0, *how);
                b.is(l, v.0.clone(), "value");
                let z = b.op(Op::Pred { w: *w, a: 0, b: 0, op: PR_IS_ZERO });
                b.is(z, vec![v.0.iter().all(|x| *x == 0) as u8], "is_zero");
                let z = b.op(Op::Un { w: *w, dst: 1, src: 0, op: UN_ZERO });
                b.is(z, vec![0; v.0.len()], "zero()");
                let d = b.op(Op::Un { w: *w, dst: 2, src: 0, op: UN_DEFAULT });
                b.is(d, vec![0; v.0.len()], "default()");
                let e = b.op(Op::Pred { w: *w, a: 1, b: 2, op: PR_EQ });
                b.is(e, vec![1], "zero() == default()");
                let e = b.op(Op::Pred { w: *w, a: 1, b: 0, op: PR_EQ });
                b.is(e, vec![v.0.iter().all(|x| *x == 0) as u8], "== zero()");
            }
            Gadget::Convert { w, kind, align, data } => {
                let l = b.op(Op::Load { w: *w, dst: 0, kind: *kind, align: *align, data: data.clone() });
                b.is(l, data.0.clone(), "value made from bytes");
                for k in [GK_INTO, GK_STORE, GK_U128] {
                    if k != GK_U128 || *w == 1 {
                        let g = b.op(Op::Get { w: *w, src: 0, kind: k });
                        b.is(g, data.0.clone(), "bytes read back");
                    }
                }
            }
            Gadget::Constant { w, idx, kind } => {
                let want: Vec<u8> = (0..16 * *w as usize).map(|j| const_byte(*idx as usize, j)).collect();
                let c = b.op(Op::Const { w: *w, idx: *idx, dst: 0, kind: *kind });
                b.is(c, want.clone(), "constant");
                b.load(*w, 1, &want);
                let g = b.op(Op::Get { w: *w, src: 0, kind: GK_STORE });
                b.is(g, want, "constant read back");
            }
            Gadget::Slice { w, place, off, data } => {
                let n = 16 * *w as usize;
                let r = b.op(Op::TryFrom { w: *w, dst: 0, place: *place, off: *off, data: data.clone() });
                let want = if data.0.len() >= n {
                    [&[1], &data.0[..n]].concat()
                } else {
                    [&[0u8][..], &(data.0.len() as u64).to_le_bytes()].concat()
                };
                b.is(r, want, "result of the slice conversion");
            }
            Gadget::Store { w, place, off, len, fill, value } => {
                let n = 16 * *w as usize;
                b.load(*w, 0, &value.0);
                let s = b.op(Op::Store { w: *w, src: 0, place: *place, off: *off, len: *len, fill: *fill });
                let len = *len as usize;
                let start = match *place {
                    PL_END => REGION - len,
                    PL_START => 0,
                    _ => 128 + *off as usize,
                };
                let (lo, hi) = (start.saturating_sub(64), (start + len + 64).min(REGION));
                let mut win = vec![*fill; hi - lo];
                let fits = len >= n;
                if fits {
                    win[start - lo..start - lo + n].copy_from_slice(&value.0);
                }
                let want = [&(lo as u16).to_le_bytes()[..], &((hi - lo) as u16).to_le_bytes(), &win, &[1]].concat();
                if fits {
                    b.is(s, want.clone(), "memory after the store");
                } else {
                    b.checks.push(Check::Panics(s, "short destination"));
                }
                let g = b.op(Op::Region);
                b.is(g, want, "memory around the destination");
                let g = b.op(Op::Get { w: *w, src: 0, kind: GK_INTO });
                b.is(g, value.0.clone(), "value after the store");
            }
            Gadget::Compose { kind, data, regs } => {
                let d = &data.0;
                let r = |i: usize| regs[i] % NREG as u8;
                let distinct = {
                    let mut v: Vec<u8> = (0..4).map(r).collect();
                    v.sort_unstable();
                    v.dedup();
                    v.len() == 4
                };
                match *kind {
                    MV_BB_W | MV_BBBB_Q => {
                        let n = if *kind == MV_BB_W { 2 } else { 4 };
                        let mut cur = vec![vec![]; NREG];
                        for i in 0..n {
                            b.load(1, r(i), &d[16 * i..][..16]);
                            cur[r(i) as usize] = d[16 * i..][..16].to_vec();
                        }
                        let want: Vec<u8> = (0..n).flat_map(|i| cur[r(i) as usize].clone()).collect();
                        let m = b.op(Op::Move { kind: *kind, d: 0, s: [r(0), r(1), r(2), r(3)] });
                        b.is(m, want.clone(), "composed value");
                        let back = if n == 2 { MV_W_BB } else { MV_Q_BBBB };
                        let m = b.op(Op::Move { kind: back, d: 1, s: [0, 2, 3, 4] });
                        b.is(m, want, "split again");
                    }
                    MV_WW_Q => {
                        let mut cur = vec![vec![]; NREG];
                        for i in 0..2 {
                            b.load(2, r(i), &d[32 * i..][..32]);
                            cur[r(i) as usize] = d[32 * i..][..32].to_vec();
                        }
                        let want: Vec<u8> = (0..2).flat_map(|i| cur[r(i) as usize].clone()).collect();
                        let m = b.op(Op::Move { kind: *kind, d: 0, s: [r(0), r(1), 0, 0] });
                        b.is(m, want.clone(), "composed value");
                        let m = b.op(Op::Move { kind: MV_Q_WW, d: 1, s: [0, 2, 0, 0] });
                        b.is(m, want, "split again");
                    }
                    MV_W_BB => {
                        b.load(2, 0, &d[..32]);
                        let m = b.op(Op::Move { kind: *kind, d: 1, s: [0, 2, 0, 0] });
                        b.is(m, d[..32].to_vec(), "components");
                        let m = b.op(Op::Move { kind: MV_BB_W, d: 3, s: [1, 2, 0, 0] });
                        b.is(m, d[..32].to_vec(), "composed again");
                    }
                    MV_Q_BBBB => {
                        b.load(4, 0, d);
                        let s = if distinct { [0, r(1), r(2), r(3)] } else { [0, 2, 3, 4] };
                        let dd = if distinct { r(0) } else { 1 };
                        let m = b.op(Op::Move { kind: *kind, d: dd, s });
                        b.is(m, d.clone(), "components");
                        let m = b.op(Op::Move { kind: MV_BBBB_Q, d: 3, s: [dd, s[1], s[2], s[3]] });
                        b.is(m, d.clone(), "composed again");
                    }
                    MV_Q_WW => {
                        b.load(4, 0, d);
                        let m = b.op(Op::Move { kind: *kind, d: 1, s: [0, 2, 0, 0] });
                        b.is(m, d.clone(), "components");
                        let m = b.op(Op::Move { kind: MV_WW_Q, d: 3, s: [1, 2, 0, 0] });
                        b.is(m, d.clone(), "composed again");
                    }
                    MV_B_W | MV_B_Q => {
                        b.load(1, r(0), &d[..16]);
                        let m = b.op(Op::Move { kind: *kind, d: 0, s: [r(0), 0, 0, 0] });
                        b.is(m, d[..16].repeat(if *kind == MV_B_W { 2 } else { 4 }), "repeated block");
                    }
                    _ => {
                        b.load(2, r(0), &d[..32]);
                        let m = b.op(Op::Move { kind: MV_W_Q, d: 0, s: [r(0), 0, 0, 0] });
                        b.is(m, d[..32].repeat(2), "repeated pair");
                    }
                }
            }
            Gadget::Format { w, kind, alt, cap, value, once } => {
                b.load(*w, 0, &value.0);
                let alt_b = *alt & 1 != 0;
                let text = if *w == 1 { block_text(&value.0, *kind, alt_b) } else { wide_text(&value.0, alt_b) };
                let f = b.op(Op::Fmt { w: *w, src: 0, kind: *kind, alt: *alt, cap: *cap, once: *once });
                let fits = text.len() <= *cap as usize;
                if *once != 0 && !fits {
                    // what such a writer received is not judged, only that the caller hears of it
                    b.checks.push(Check::Ok(f));
                    b.checks.push(Check::Starts(f, vec![0], "error of the writer"));
                    return (b.ops, b.checks);
                }
                let mut want = vec![fits as u8];
                want.extend(&text.as_bytes()[..text.len().min(*cap as usize)]);
                b.is(f, want, "text");
            }
            Gadget::Raw(op) => {
                let i = b.op(op.clone());
                if op.must_panic() {
                    b.checks.push(Check::Panics(i, "documented panic"));
                } else {
                    b.checks.push(Check::Ok(i));
                }
            }
            Gadget::Concurrent { size, n, iters, variant, key, starts } => {
                let f = |seq| Op::Threads { size: *size, n: *n, iters: *iters, variant: *variant, seq, key: key.clone(), starts: starts.clone() };
                let r = b.op(f(0));
                let s = b.op(f(1));
                b.checks.push(Check::Same(r, s, "concurrent vs sequential"));
                let t = b.op(f(0));
                b.checks.push(Check::Same(t, s, "concurrent vs sequential"));
            }
            Gadget::Race { threads } => {
                let each: Vec<Vec<(Vec<Op>, Vec<Check>)>> = threads.iter().map(|t| t.1.iter().map(|g| g.expand()).collect()).collect();
                let r = b.op(Op::Race { threads: threads.iter().zip(&each).map(|(t, e)| (t.0, e.iter().flat_map(|x| x.0.clone()).collect())).collect() });
                b.checks.push(Check::Threads(r, each));
            }
            Gadget::Repeat { size, role, w, n, key, data } => {
                b.op(Op::Key { size: *size, role: *role, slot: 0, key: key.clone() });
                b.load(*w, 0, &data.0);
                let r = b.op(Op::Repeat { size: *size, role: *role, slot: 0, w: *w, dst: 1, src: 0, n: *n });
                b.op(Op::Key { size: *size, role: *role, slot: 1, key: key.clone() });
                b.op(Op::Repeat { size: *size, role: *role, slot: 1, w: *w, dst: 2, src: 0, n: *n / 2 });
                b.op(Op::Key { size: *size, role: *role, slot: 2, key: key.clone() });
                let s = b.op(Op::Repeat { size: *size, role: *role, slot: 2, w: *w, dst: 3, src: 2, n: *n - *n / 2 });
                if *n >= 2 {
                    b.checks.push(Check::Same(r, s, "many calls on one object vs on two"));
                }
                // the object itself must be unchanged
                b.op(Op::Key { size: *size, role: *role, slot: 3, key: key.clone() });
                let x = b.crypt(*size, *role, 0, *w, 4, 0);
                let y = b.crypt(*size, *role, 3, *w, 5, 0);
                b.checks.push(Check::Same(x, y, "used object vs fresh object"));
            }
            Gadget::Loop { n, what } => {
                let (ops, _) = what.expand();
                if !ops.is_empty() && !ops.iter().any(|o| o.must_panic()) {
                    let r = b.op(Op::Loop { n: *n, ops });
                    b.checks.push(Check::Ok(r));
                    b.checks.push(Check::Ends(r, n.to_le_bytes().to_vec(), "answers to the same commands given again"));
                }
            }
            Gadget::Interleave { size, role, w, key, others, data } => {
                b.op(Op::Key { size: *size, role: *role, slot: 0, key: key.clone() });
                b.load(*w, 0, &data.0);
                let first = b.crypt(*size, *role, 0, *w, 1, 0);
                for (i, k) in others.iter().enumerate() {
                    let slot = 1 + (i % 2) as u8;
                    let r = (i / 2 % 2) as u8;
                    // the other sizes see a key of the right length made from the same bytes
                    let sz = (i % 3) as u8;
                    let kk: Vec<u8> = k.0.iter().cycle().take(16 + 8 * sz as usize).copied().collect();
                    b.op(Op::Key { size: sz, role: r, slot, key: Hx(kk) });
                    b.crypt(sz, r, slot, [1, 2, 4][i % 3], 3, 0);
                    if i % 4 == 3 {
                        b.op(Op::Switch { size: sz, role: r, slot, dst: slot });
                    }
                    let again = b.crypt(*size, *role, 0, *w, 2, 0);
                    b.checks.push(Check::Same(again, first, "same call after other ciphers were used"));
                }
                b.op(Op::Key { size: *size, role: *role, slot: 3, key: key.clone() });
                let again = b.crypt(*size, *role, 3, *w, 2, 0);
                b.checks.push(Check::Same(again, first, "same key built again"));
            }
        }
        (b.ops, b.checks)
    }

    /// The byte fields, for shrinking towards zero.
    pub fn datas(&mut self) -> Vec<&mut Hx> {
        match self {
            Gadget::Cipher { key, blocks, .. } => vec![key, blocks],
            Gadget::RoundTrip { key, data, .. } | Gadget::Wide { key, data, .. } | Gadget::Repeat { key, data, .. } => vec![key, data],
            Gadget::Roles { a, b, data, .. } => vec![a, b, data],
            Gadget::Round { state, key, .. } => vec![state, key],
            Gadget::Mix { state, .. } => vec![state],
            Gadget::WideRound { state, keys, .. } | Gadget::Chain { state, keys, .. } | Gadget::LongChain { state, keys, .. } => vec![state, keys],
            Gadget::Bits { a, b, .. } | Gadget::Equal { a, b, .. } => vec![a, b],
            Gadget::Zeros { v, .. } => vec![v],
            Gadget::Convert { data, .. } | Gadget::Slice { data, .. } | Gadget::Compose { data, .. } => vec![data],
            Gadget::Store { value, .. } | Gadget::Format { value, .. } | Gadget::Big { value, .. } => vec![value],
            Gadget::Concurrent { key, starts, .. } => vec![key, starts],
            Gadget::Loop { what, .. } => what.datas(),
            Gadget::Race { threads } => threads.iter_mut().flat_map(|t| t.1.iter_mut().flat_map(|g| g.datas())).collect(),
            Gadget::Interleave { key, others, data, .. } => {
                let mut v = vec![key, data];
                v.extend(others.iter_mut());
                v
            }
            Gadget::Raw(op) => match op {
                Op::Load { data, .. } | Op::TryFrom { data, .. } => vec![data],
                Op::Chain { keys, .. } => vec![keys],
                Op::Key { key, .. } => vec![key],
                _ => vec![],
            },
            Gadget::Constant { .. } => vec![],
        }
    }

    /// Structurally smaller variants.
    pub fn smaller(&self) -> Vec<Gadget> {
        let mut out = vec![];
        let mut push = |g: Gadget| out.push(g);
        match self {
            Gadget::Cipher { size, role, via, key, blocks } => {
                let n = blocks.0.len() / 16;
                for i in 0..n {
                    if n > 1 {
                        push(Gadget::Cipher { size: *size, role: *role, via: *via, key: key.clone(), blocks: Hx(blocks.0[16 * i..16 * i + 16].to_vec()) });
                    }
                }
                if *via != VIA_KEY {
                    push(Gadget::Cipher { size: *size, role: *role, via: VIA_KEY, key: key.clone(), blocks: blocks.clone() });
                }
            }
            Gadget::Roles { size, a, b, steps, w, data } => {
                for i in 0..steps.len() {
                    let mut s = steps.clone();
                    s.remove(i);
                    push(Gadget::Roles { size: *size, a: a.clone(), b: b.clone(), steps: s, w: *w, data: data.clone() });
                }
                if *w > 1 {
                    push(Gadget::Roles { size: *size, a: a.clone(), b: b.clone(), steps: steps.clone(), w: 1, data: Hx(data.0[..16].to_vec()) });
                }
            }
            Gadget::Chain { dir, w, state, keys } => {
                let u = 16 * *w as usize;
                let n = keys.0.len() / u;
                for cut in [n / 2, n.saturating_sub(8), n.saturating_sub(1)] {
                    if cut < n {
                        push(Gadget::Chain { dir: *dir, w: *w, state: state.clone(), keys: Hx(keys.0[..cut * u].to_vec()) });
                        push(Gadget::Chain { dir: *dir, w: *w, state: state.clone(), keys: Hx(keys.0[(n - cut) * u..].to_vec()) });
                    }
                }
            }
            Gadget::Slice { w, place, off, data } => {
                let n = data.0.len();
                for cut in [0, n / 2, n.saturating_sub(1)] {
                    if cut < n {
                        push(Gadget::Slice { w: *w, place: *place, off: *off, data: Hx(data.0[..cut].to_vec()) });
                    }
                }
                if *off > 0 {
                    push(Gadget::Slice { w: *w, place: *place, off: 0, data: data.clone() });
                }
            }
            Gadget::Store { w, place, off, len, fill, value } => {
                for l in [0, *len / 2, len.saturating_sub(1)] {
                    if l < *len {
                        push(Gadget::Store { w: *w, place: *place, off: *off, len: l, fill: *fill, value: value.clone() });
                    }
                }
                if *off > 0 {
                    push(Gadget::Store { w: *w, place: *place, off: 0, len: *len, fill: *fill, value: value.clone() });
                }
            }
            Gadget::Repeat { size, role, w, n, key, data } => {
                for m in [*n / 2, n.saturating_sub(*n / 8), n.saturating_sub(1)] {
                    if m < *n {
                        push(Gadget::Repeat { size: *size, role: *role, w: *w, n: m, key: key.clone(), data: data.clone() });
                    }
                }
            }
            Gadget::Race { threads } => {
                for t in 0..threads.len() {
                    let mut less = threads.clone();
                    if less.len() > 1 {
                        less.remove(t);
                        push(Gadget::Race { threads: less });
                    }
                    for k in 0..threads[t].1.len() {
                        let mut less = threads.clone();
                        less[t].1.remove(k);
                        push(Gadget::Race { threads: less });
                    }
                }
            }
            Gadget::Loop { n, what } => {
                for c in [*n / 2, n - *n / 4, n - *n / 16, n - *n / 256, n.saturating_sub(1)] {
                    if c < *n {
                        push(Gadget::Loop { n: c, what: what.clone() });
                    }
                }
                for x in what.smaller() {
                    push(Gadget::Loop { n: *n, what: Box::new(x) });
                }
            }
            Gadget::Interleave { size, role, w, key, others, data } => {
                for i in 0..others.len() {
                    let mut o = others.clone();
                    o.remove(i);
                    push(Gadget::Interleave { size: *size, role: *role, w: *w, key: key.clone(), others: o, data: data.clone() });
                }
            }
            Gadget::LongChain { dir, w, count, state, keys } => {
                let u = 16 * *w as usize;
                if keys.0.len() > u {
                    push(Gadget::LongChain { dir: *dir, w: *w, count: *count, state: state.clone(), keys: Hx(keys.0[..u].to_vec()) });
                }
                for c in [*count / 2, count - *count / 4, count - *count / 16, count - *count / 256, count.saturating_sub(1)] {
                    if c < *count {
                        push(Gadget::LongChain { dir: *dir, w: *w, count: c, state: state.clone(), keys: keys.clone() });
                    }
                }
            }
            Gadget::Big { store, w, off, len, fill, value } => {
                for l in [*len / 2, len - *len / 4, len - *len / 16, len - *len / 256, len.saturating_sub(1)] {
                    if l < *len {
                        push(Gadget::Big { store: *store, w: *w, off: *off, len: l, fill: *fill, value: value.clone() });
                    }
                }
                if *off > 0 {
                    push(Gadget::Big { store: *store, w: *w, off: 0, len: *len, fill: *fill, value: value.clone() });
                }
            }
            Gadget::Raw(Op::Chain { w, dst, src, dir, keys }) => {
                let u = 16 * *w as usize;
                let n = keys.0.len() / u;
                if n > 1 {
                    push(Gadget::Raw(Op::Chain { w: *w, dst: *dst, src: *src, dir: *dir, keys: Hx(keys.0[..(n / 2) * u].to_vec()) }));
                }
            }
            _ => {}
        }
        out
    }

    pub fn class(&self) -> String {
        let sz = |s: &u8| 128 + 64 * *s as u32;
        match self {
            Gadget::Cipher { size, role, via, .. } => format!("{}{} via {}", ["enc", "dec"][*role as usize], sz(size), ["key", "other role", "clone", "two switches", "clone_from"][*via as usize]),
            Gadget::RoundTrip { size, first, w, .. } => format!("round trip {} {} x{w}", ["enc-dec", "dec-enc"][*first as usize], sz(size)),
            Gadget::Wide { size, role, w, .. } => format!("{}{} x{w}", ["enc", "dec"][*role as usize], sz(size)),
            Gadget::Roles { size, steps, .. } => format!("roles {} {}", sz(size), if steps.len() > 8 { ">8 steps" } else { "<=8 steps" }),
            Gadget::Round { op, .. } => format!("round {}", ["enc", "dec", "enc_last", "dec_last"][(*op - BI_ENC) as usize]),
            Gadget::Mix { op, .. } => ["mc", "imc"][*op as usize].into(),
            Gadget::WideRound { op, w, .. } => format!("x{w} {}", ["enc", "dec", "enc_last", "dec_last"][(*op - BI_ENC) as usize]),
            Gadget::Chain { dir, w, keys, .. } => {
                let n = keys.0.len() / (16 * *w as usize);
                let l = match n {
                    0 => "0",
                    1 => "1",
                    2..=8 => "2-8",
                    9..=40 => "9-40",
                    _ => ">40",
                };
                format!("chain {} x{w} {l} keys", ["enc", "dec"][*dir as usize])
            }
            Gadget::LongChain { dir, w, count, .. } => {
                let l = match *count {
                    0..=40 => "<=40",
                    41..=300 => "41-300",
                    301..=65_535 => "301-65535",
                    _ => ">65535",
                };
                format!("chain {} x{w} {l} keys", ["enc", "dec"][*dir as usize])
            }
            Gadget::Big { store, w, len, .. } => {
                let l = match *len {
                    0..=65_535 => "<64K",
                    65_536..=16_777_216 => "64K-16M",
                    _ => ">16M",
                };
                format!("x{w} {} of {l}", if *store { "store to slice" } else { "slice" })
            }
            Gadget::Bits { w, op, .. } => format!("x{w} {}", ["and", "or", "xor", "and=", "or=", "xor=", "not"][(*op).min(6) as usize]),
            Gadget::Equal { w, a, b, .. } => {
                let d: usize = a.0.iter().zip(&b.0).map(|(x, y)| (x ^ y).count_ones() as usize).sum();
                format!("x{w} {}", match d {
                    0 => "equal",
                    1 => "1 bit apart",
                    2 => "2 bits apart",
                    _ => "far apart",
                })
            }
            Gadget::Zeros { w, v, .. } => format!("x{w} zero test on {}", if v.0.iter().all(|x| *x == 0) { "zero" } else { "non-zero" }),
            Gadget::Convert { w, kind, .. } => format!("x{w} from {}", ["new", "array", "array ref", "slice", "u128"][*kind as usize]),
            Gadget::Constant { w, .. } => format!("x{w} const"),
            Gadget::Slice { w, data, .. } => format!("x{w} slice {}", len_class(data.0.len(), *w)),
            Gadget::Store { w, len, .. } => format!("x{w} store {}", len_class(*len as usize, *w)),
            Gadget::Compose { kind, .. } => format!("compose {kind}"),
            Gadget::Format { w, kind, alt, cap, once, .. } => format!("x{w} fmt {}{}{}", ["display", "debug", "hex", "HEX", "bin"][*kind as usize], if *alt & 1 != 0 { " #" } else { "" }, if *cap >= 400 {
                ""
            } else if *once != 0 {
                " writer failing once"
            } else {
                " failing writer"
            }),
            Gadget::Raw(op) => op.name().into(),
            Gadget::Concurrent { n, .. } => format!("{n} threads"),
            Gadget::Repeat { n, .. } => format!("repeat {}", if *n > 1000 { ">1000" } else { "<=1000" }),
            Gadget::Race { threads } => format!("{} threads at once: {}", threads.len(), threads[0].1.first().map_or("-".into(), |g| g.class().split(' ').next().unwrap_or("").to_string())),
            Gadget::Loop { n, .. } => format!("loop {}", if *n > 65_536 { ">65536" } else { "<=65536" }),
            Gadget::Interleave { .. } => "interleave".into(),
        }
    }

    /// Non-trivial: the situation exercises what the property is about with inputs that are not all one byte value.
    pub fn nontrivial(&self) -> bool {
        let varied = |h: &Hx| h.0.windows(2).any(|w| w[0] != w[1]);
        match self {
            Gadget::Cipher { key, blocks, .. } => varied(key) && varied(blocks),
            Gadget::RoundTrip { key, data, .. } | Gadget::Wide { key, data, .. } => varied(key) && varied(data),
            Gadget::Roles { steps, a, data, .. } => !steps.is_empty() && varied(a) && varied(data),
            Gadget::Round { state, key, .. } => varied(state) || varied(key),
            Gadget::Mix { state, .. } => varied(state),
            Gadget::WideRound { state, keys, .. } => varied(state) || varied(keys),
            Gadget::Chain { w, keys, .. } => keys.0.len() != 16 * *w as usize,
            Gadget::LongChain { count, .. } => *count != 1,
            Gadget::Big { .. } => true,
            Gadget::Bits { a, b, .. } => varied(a) || varied(b),
            Gadget::Equal { a, b, .. } => varied(a) || varied(b),
            Gadget::Zeros { v, .. } => v.0.iter().any(|x| *x != 0) || true,
            Gadget::Convert { data, .. } => varied(data),
            Gadget::Constant { .. } => true,
            Gadget::Slice { .. } | Gadget::Store { .. } => true,
            Gadget::Compose { data, .. } => varied(data),
            Gadget::Format { value, .. } => varied(value),
            Gadget::Raw(_) => true,
            Gadget::Concurrent { n, .. } => *n >= 2,
            Gadget::Repeat { n, .. } => *n >= 2,
            Gadget::Loop { n, .. } => *n >= 2,
            Gadget::Race { threads } => threads.iter().filter(|t| !t.1.is_empty()).count() >= 2,
            Gadget::Interleave { others, .. } => !others.is_empty(),
        }
    }
}

fn len_class(n: usize, w: u8) -> &'static str {
    let need = 16 * w as usize;
    match n {
        0 => "empty",
        _ if n < need => "short",
        _ if n == need => "exact",
        _ => "long",
    }
}

// ------------------------------------------------------------------------------------------------ generators

fn width(g: &mut Gen) -> u8 {
    [1, 2, 4][g.r.below(3)]
}
fn wide(g: &mut Gen) -> u8 {
    [2, 4][g.r.below(2)]
}

pub fn gadget(prop: &str, g: &mut Gen) -> Gadget {
    match prop {
        "C01" => cipher(g, 0),
        // what may hold a secret
        "C17" => gadget(["C01", "C02", "C03", "C05", "C06", "C07", "C08"][g.r.below(7)], g),
        "C21" => gadget(["C01", "C02", "C03"][g.r.below(3)], g),
        "C02" => {
            if g.r.pct(30) {
                round_trip(g)
            } else {
                cipher(g, 1)
            }
        }
        "C03" => {
            let (size, role, w) = (g.r.below(3) as u8, g.r.below(2) as u8, wide(g));
            let key = g.key(size);
            let mut data = g.value(16 * w as usize);
            if g.r.pct(25) {
                let b = g.block_for(&key, role == 1);
                data = (0..w).flat_map(|_| if g.r.pct(30) { b.clone() } else { g.block_for(&key, role == 1) }).collect();
            }
            Gadget::Wide { size, role, via: via(g), w, key: Hx(key), data: Hx(data) }
        }
        "C04" => {
            let (size, w) = (g.r.below(3) as u8, width(g));
            let a = g.key(size);
            let mut b = a.clone();
            if g.r.pct(70) {
                g.mutate(&mut b);
            } else {
                b = g.key(size);
            }
            let (n, style) = match g.r.below(500) {
                0 => (g.r.range(200, 700), 0),
                1..=100 => (g.r.range(9, 40), g.r.below(4)),
                _ => (g.r.range(1, 8), g.r.below(4)),
            };
            let steps = (0..n)
                .map(|i| {
                    let kind = match g.r.below(10) {
                        0 => 2,
                        1 | 2 => 3,
                        3 => 1,
                        4 => [1, 5][g.r.below(2)],
                        _ => 0,
                    };
                    if style == 0 {
                        // a straight line of switches
                        ((i % 2) as u8, 0, 0, 0)
                    } else {
                        (g.r.below(2) as u8, g.r.below(3) as u8, kind, g.r.below(3) as u8)
                    }
                })
                .collect();
            let data = g.value(16 * w as usize);
            Gadget::Roles { size, a: Hx(a), b: Hx(b), steps, w, data: Hx(data) }
        }
        "C05" => {
            let op = BI_ENC + g.r.below(4) as u8;
            let state = g.value(16);
            let key = round_key(g, op, &state);
            Gadget::Round { op, state: Hx(state), key: Hx(key) }
        }
        "C06" => Gadget::Mix { op: g.r.below(2) as u8, state: Hx(g.value(16)) },
        "C07" => {
            let (op, w) = (BI_ENC + g.r.below(4) as u8, wide(g));
            let state = g.value(16 * w as usize);
            let keys = if g.r.pct(20) { state.chunks(16).flat_map(|s| round_key(g, op, s)).collect() } else { g.value(16 * w as usize) };
            Gadget::WideRound { op, w, state: Hx(state), keys: Hx(keys) }
        }
        "C08" => {
            if g.r.below(1000) == 0 {
                return long_chain(g, 1200);
            }
            let (dir, w) = (g.r.below(2) as u8, width(g));
            let state = g.value(16 * w as usize);
            let n = g.chain_len();
            let keys = g.chain_keys(dir, &state, n);
            Gadget::Chain { dir, w, state: Hx(state), keys: Hx(keys) }
        }
        "C09" => {
            let w = width(g);
            let n = 16 * w as usize;
            let (a, b) = (g.value(n), g.value(n));
            Gadget::Bits { w, op: g.r.below(7) as u8, a: Hx(a), b: Hx(b), alias: g.r.pct(8) }
        }
        "C10" => {
            let w = width(g);
            let n = 16 * w as usize;
            if g.r.pct(35) {
                let v = match g.r.below(8) {
                    0 | 1 => vec![0; n],
                    2 | 3 => {
                        let mut v = vec![0; n];
                        v[g.r.below(n)] = 1 << g.r.below(8);
                        v
                    }
                    4 | 5 => {
                        let mut v = vec![0; n];
                        g.mutate(&mut v);
                        v
                    }
                    _ => g.value(n),
                };
                return Gadget::Zeros { w, v: Hx(v), how: g.r.below(10) as u8 };
            }
            let a = g.value(n);
            let mut b = a.clone();
            match g.r.below(10) {
                0..=2 => {}
                3..=7 => g.mutate(&mut b),
                8 => {
                    g.mutate(&mut b);
                    g.mutate(&mut b);
                }
                _ => b = g.value(n),
            }
            Gadget::Equal { w, a: Hx(a), b: Hx(b), how: (g.r.below(10) * 16 + g.r.below(10)) as u8 }
        }
        "C11" => {
            let w = width(g);
            if g.r.pct(12) {
                return Gadget::Constant { w, idx: g.r.below(NCONST) as u8, kind: g.r.below(2) as u8 };
            }
            let kind = g.r.below(if w == 1 { 5 } else { 4 }) as u8;
            Gadget::Convert { w, kind, align: g.r.below(64) as u8, data: Hx(g.value(16 * w as usize)) }
        }
        "C08L" => long_chain(g, 70_000),
        "C12" if g.r.below(150) == 0 => big(g, false),
        "C13" if g.r.below(150) == 0 => big(g, true),
        "C12" => slice(g),
        "C13" => store(g),
        "C14" => {
            let data = g.value(64);
            Gadget::Compose { kind: g.r.below(9) as u8, data: Hx(data), regs: std::array::from_fn(|_| g.r.below(NREG) as u8) }
        }
        "C15" => {
            let w = if g.r.pct(60) { 1 } else { wide(g) };
            let kind = if w == 1 { g.r.below(5) as u8 } else { FM_DEBUG };
            let cap = if g.r.pct(20) { g.r.below(180) as u16 } else { 4000 };
            Gadget::Format { w, kind, alt: style(g, kind), cap, value: Hx(g.value(16 * w as usize)), once: g.r.pct(40) as u8 }
        }
        "C18" => history(g),
        _ => Gadget::Raw(raw(g)),
    }
}

fn style(g: &mut Gen, kind: u8) -> u8 {
    let s = if g.r.pct(75) { FS_PLAIN as usize } else { g.r.below(FS_COUNT) };
    let s = if kind != FM_DEBUG && s as u8 >= FS_HEX { FS_WIDE as usize } else { s };
    (2 * s + g.r.below(2)) as u8
}

fn via(g: &mut Gen) -> u8 {
    match g.r.below(10) {
        0..=5 => VIA_KEY,
        6 | 7 => VIA_OTHER,
        8 => [VIA_CLONE, VIA_CLONE_FROM][g.r.below(2)],
        _ => VIA_ROUND,
    }
}

fn cipher(g: &mut Gen, role: u8) -> Gadget {
    let size = g.r.below(3) as u8;
    let key = g.key(size);
    let n = [1, 1, 2, 3, 4, 6][g.r.below(6)];
    let blocks = (0..n).flat_map(|_| g.block_for(&key, role == 1)).collect();
    let via = if role == 0 {
        // an encrypter built from the key is what C01 is about; obtaining one otherwise is C04's
        VIA_KEY
    } else {
        [VIA_KEY, VIA_KEY, VIA_OTHER][g.r.below(3)]
    };
    Gadget::Cipher { size, role, via, key: Hx(key), blocks: Hx(blocks) }
}

fn round_trip(g: &mut Gen) -> Gadget {
    let size = g.r.below(3) as u8;
    let key = g.key(size);
    let dec = g.r.pct(50);
    let data = g.block_for(&key, dec);
    Gadget::RoundTrip { size, first: g.r.below(2) as u8, via: [VIA_KEY, VIA_OTHER][g.r.below(2)], w: 1, key: Hx(key), data: Hx(data) }
}

fn round_key(g: &mut Gen, op: u8, state: &[u8]) -> Vec<u8> {
    match g.r.below(10) {
        0 => state.to_vec(),
        1 => {
            // the round's result is structured
            let s = b16(state);
            let z = [0; 16];
            let r = match op {
                BI_ENC => fips::enc(s, z),
                BI_DEC => fips::dec(s, z),
                BI_ENC_LAST => fips::enc_last(s, z),
                _ => fips::dec_last(s, z),
            };
            let want: B16 = b16(&g.value(16));
            fips::xor(r, want).to_vec()
        }
        2 => vec![0; 16],
        _ => g.value(16),
    }
}

/// Numbers of keys of every magnitude, often next to a power of two.
fn long_count(g: &mut Gen, max: usize) -> u32 {
    let bits = max.ilog2() as usize;
    let k = match g.r.below(10) {
        0..=3 => (1usize << g.r.range(5, bits)) + g.r.below(5) - 2,
        4..=6 => {
            let b = g.r.range(4, bits);
            (1 << b) + g.r.below(1 << b)
        }
        _ => max - g.r.below(max / 16),
    };
    k.min(max) as u32
}

fn long_chain(g: &mut Gen, max: usize) -> Gadget {
    let (dir, w) = (g.r.below(2) as u8, width(g));
    let count = long_count(g, max);
    let state = g.value(16 * w as usize);
    let p = g.r.range(1, 5);
    let keys = g.chain_keys(dir, &state, p);
    Gadget::LongChain { dir, w, count, state: Hx(state), keys: Hx(keys) }
}

fn big(g: &mut Gen, store: bool) -> Gadget {
    let w = width(g);
    let need = 16 * w as usize;
    let small = g.slice_len(need) as u64;
    let len = match g.r.below(10) {
        // equal to a small number modulo a power of two
        0..=3 => (1 + g.r.below(3) as u64) * (1 << 16) + small,
        4 => (1u64 << g.r.range(11, 23)) + small - 1,
        5 => 65_536 + g.r.below(1 << 17) as u64,
        6 => (1 << 31) + small - 1,
        7 => (1 << 31) + g.r.below(1 << 31) as u64,
        _ => (1 << 32) + small,
    };
    let value = g.value(need);
    Gadget::Big { store, w, off: g.r.below(64) as u8, len, fill: g.r.byte(), value: Hx(value) }
}

fn slice(g: &mut Gen) -> Gadget {
    let w = width(g);
    let n = g.slice_len(16 * w as usize).min(3000);
    let mut data = g.value(16 * w as usize);
    data.resize(n, 0);
    for i in 16 * w as usize..n {
        data[i] = g.r.byte();
    }
    Gadget::Slice { w, place: g.r.below(3) as u8, off: g.r.byte(), data: Hx(data) }
}

fn store(g: &mut Gen) -> Gadget {
    let w = width(g);
    let n = g.slice_len(16 * w as usize).min(3000) as u16;
    let value = g.value(16 * w as usize);
    let fill = match g.r.below(4) {
        0 => 0,
        1 => 0xff,
        2 => value[value.len() - 1],
        _ => g.r.byte(),
    };
    Gadget::Store { w, place: g.r.below(3) as u8, off: g.r.byte(), len: n, fill, value: Hx(value) }
}

/// Self-contained situations whose answers may not depend on what ran before (C18).
fn history(g: &mut Gen) -> Gadget {
    match g.r.below(40) {
        0..=6 => cipher(g, 0),
        7..=13 => cipher(g, 1),
        14 | 15 => gadget("C03", g),
        16 | 17 => gadget("C04", g),
        18 | 19 => gadget("C05", g),
        20 => gadget("C06", g),
        21 => gadget("C07", g),
        22 | 23 => gadget("C08", g),
        24 => gadget("C09", g),
        25 => gadget("C10", g),
        26 => gadget("C11", g),
        27 => gadget("C12", g),
        28 => gadget("C13", g),
        29 => gadget("C14", g),
        30 => gadget("C15", g),
        _ => {
            let (size, role, w) = (g.r.below(3) as u8, g.r.below(2) as u8, width(g));
            let key = g.key(size);
            let n = g.r.range(1, 9);
            let others = (0..n)
                .map(|_| {
                    let mut k = key.clone();
                    match g.r.below(8) {
                        0 => {}
                        1..=5 => g.mutate(&mut k),
                        _ => k = g.key(size),
                    }
                    Hx(k)
                })
                .collect();
            let data = g.value(16 * w as usize);
            Gadget::Interleave { size, role, w, key: Hx(key), others, data: Hx(data) }
        }
    }
}

pub fn repeat(g: &mut Gen, max: usize) -> Gadget {
    let (size, role, w) = (g.r.below(3) as u8, g.r.below(2) as u8, width(g));
    let n = match g.r.below(6) {
        0 => g.r.range(2, 40),
        1 => [255, 256, 257, 511, 512, 1023, 1024][g.r.below(7)].min(max),
        _ => g.r.range(max / 2, max),
    };
    let key = g.key(size);
    let data = g.value(16 * w as usize);
    Gadget::Repeat { size, role, w, n: n as u16, key: Hx(key), data: Hx(data) }
}

/// The same self-contained situation over and over.
pub fn looped(g: &mut Gen, max: usize) -> Gadget {
    let n = if g.r.pct(60) { max - g.r.below(max / 32) } else { long_count(g, max) as usize };
    loop {
        let p = ["C01", "C01", "C02", "C02", "C03", "C04", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"][g.r.below(18)];
        let what = gadget(p, g);
        let (ops, _) = what.expand();
        let short = if max > 500_000 { 6 } else { 40 };
        let long = matches!(what, Gadget::Big { .. } | Gadget::LongChain { .. });
        if !long && ops.len() <= short && !ops.iter().any(|o| o.must_panic()) && ops.iter().map(|o| o.reply_len()).sum::<usize>() <= LOOP_OUT {
            return Gadget::Loop { n: n as u32, what: Box::new(what) };
        }
    }
}

/// Situations that several threads begin at the same moment, in a process that has done nothing before.
pub fn race(g: &mut Gen) -> Gadget {
    let n = [2, 2, 3, 4][g.r.below(4)];
    let kinds = ["C01", "C02", "C02", "C03", "C04", "C05", "C06", "C06", "C07", "C08", "C09", "C10", "C11", "C14", "C15"];
    let one = |kind: &str, g: &mut Gen| loop {
        let x = gadget(kind, g);
        let (ops, _) = x.expand();
        if ops.len() <= 40 && !ops.iter().any(|o| o.shared_memory()) && ops.iter().map(|o| o.out_bound()).sum::<usize>() <= 8000 {
            return x;
        }
    };
    // mostly the same kind of work everywhere, often the very same
    let kind = kinds[g.r.below(kinds.len())];
    let same = g.r.pct(40).then(|| one(kind, g));
    let mixed = g.r.pct(15);
    let threads = (0..n)
        .map(|_| {
            let mut gs = vec![match &same {
                Some(x) => x.clone(),
                None => one(if mixed { kinds[g.r.below(kinds.len())] } else { kind }, g),
            }];
            if g.r.pct(30) {
                gs.push(one(kinds[g.r.below(kinds.len())], g));
            }
            (if g.r.pct(60) { 0 } else { g.r.below(60) as u16 }, gs)
        })
        .collect();
    Gadget::Race { threads }
}

pub fn concurrent(g: &mut Gen, iters: usize) -> Gadget {
    let size = g.r.below(3) as u8;
    let n = g.r.range(2, 8);
    let key = g.key(size);
    let starts = (0..n).flat_map(|_| g.value(16)).collect();
    Gadget::Concurrent { size, n: n as u8, iters: g.r.range(iters / 4 + 1, iters) as u16, variant: g.r.below(4) as u8, key: Hx(key), starts: Hx(starts) }
}

/// Any command, registers and slots at random (C16, C20).
pub fn raw(g: &mut Gen) -> Op {
    let reg = |g: &mut Gen| g.r.below(NREG) as u8;
    let slot = |g: &mut Gen| g.r.below(2) as u8;
    let w = width(g);
    let n = 16 * w as usize;
    match g.r.below(100) {
        0..=11 => {
            let kind = g.r.below(if w == 1 { 5 } else { 4 }) as u8;
            Op::Load { w, dst: reg(g), kind, align: g.r.below(64) as u8, data: Hx(g.value(n)) }
        }
        12..=15 => Op::Get { w, src: reg(g), kind: g.r.below(if w == 1 { 3 } else { 2 }) as u8 },
        16..=19 => match slice(g) {
            Gadget::Slice { w, place, off, data } => Op::TryFrom { w, dst: reg(g), place, off, data },
            _ => unreachable!(),
        },
        20..=23 => match store(g) {
            Gadget::Store { w, place, off, len, fill, .. } => Op::Store { w, src: reg(g), place, off, len, fill },
            _ => unreachable!(),
        },
        24..=29 => {
            let op = match g.r.below(if w == 1 { 7 } else { 5 }) as u8 {
                4 => UN_CLONE_FROM,
                5 => UN_MC,
                6 => UN_IMC,
                o => o,
            };
            Op::Un { w, dst: reg(g), src: reg(g), op }
        }
        30..=45 => Op::Bin { w, dst: reg(g), a: reg(g), b: reg(g), op: g.r.below(10) as u8 },
        46..=50 => Op::Pred { w, a: reg(g), b: reg(g), op: g.r.below(3) as u8 },
        51..=56 => {
            if g.r.below(40) == 0 {
                let (count, keys) = (long_count(g, g.long), g.value(n));
                return Op::LongChain { w, dst: reg(g), src: reg(g), dir: g.r.below(2) as u8, count, keys: Hx(keys) };
            }
            let len = g.chain_len().min(24);
            let state = g.value(n);
            let dir = g.r.below(2) as u8;
            let keys = g.chain_keys(dir, &state, len);
            Op::Chain { w, dst: reg(g), src: reg(g), dir, keys: Hx(keys) }
        }
        57..=64 => {
            let kind = g.r.below(9) as u8;
            let mut s = [reg(g), reg(g), reg(g), reg(g)];
            let mut d = reg(g);
            if kind == MV_W_BB || kind == MV_Q_BBBB || kind == MV_Q_WW {
                // distinct destinations
                let o = g.r.below(NREG) as u8;
                d = o;
                for k in 1..4 {
                    s[k] = (o + k as u8) % NREG as u8;
                }
            }
            Op::Move { kind, d, s }
        }
        65..=71 => {
            let size = g.r.below(3) as u8;
            let key = g.key(size);
            Op::Key { size, role: g.r.below(2) as u8, slot: slot(g), key: Hx(key) }
        }
        72..=87 => Op::Crypt { size: g.r.below(3) as u8, role: g.r.below(2) as u8, slot: slot(g), w, dst: reg(g), src: reg(g) },
        88..=90 => Op::Switch { size: g.r.below(3) as u8, role: g.r.below(2) as u8, slot: slot(g), dst: slot(g) },
        91 | 92 => Op::CloneKey { size: g.r.below(3) as u8, role: g.r.below(2) as u8, slot: slot(g), dst: slot(g), from: g.r.below(2) as u8 },
        93..=97 => {
            let kind = if w == 1 { g.r.below(5) as u8 } else { FM_DEBUG };
            let cap = if g.r.pct(15) { g.r.below(180) as u16 } else { 4000 };
            Op::Fmt { w, src: reg(g), kind, alt: style(g, kind), cap, once: 0 }
        }
        98 => Op::Const { w, idx: g.r.below(NCONST) as u8, dst: reg(g), kind: g.r.below(2) as u8 },
        _ => Op::FmtKey { size: g.r.below(3) as u8, role: g.r.below(2) as u8, slot: slot(g) },
    }
}

/// A command that needs neither a cipher nor an AES step.
pub fn raw_value(g: &mut Gen) -> Op {
    loop {
        let op = raw(g);
        match &op {
            Op::Un { op, .. } if *op == UN_MC || *op == UN_IMC => {}
            Op::Bin { op, .. } if [BI_ENC, BI_DEC, BI_ENC_LAST, BI_DEC_LAST].contains(op) => {}
            Op::Chain { keys, .. } if !keys.0.is_empty() => {}
            Op::LongChain { .. } => {}
            Op::Key { .. } | Op::Crypt { .. } | Op::Switch { .. } | Op::CloneKey { .. } | Op::FmtKey { .. } => {}
            _ => return op,
        }
    }
}

/// Commands that fill every slot a raw program may use, so that no command lacks its cipher.
pub fn raw_prologue(g: &mut Gen) -> Vec<Gadget> {
    let mut v = vec![];
    for size in 0..3 {
        for role in 0..2 {
            for slot in 0..2 {
                let key = g.key(size);
                v.push(Gadget::Raw(Op::Key { size, role, slot, key: Hx(key) }));
            }
        }
    }
    v
}
