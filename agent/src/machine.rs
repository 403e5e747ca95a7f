//! Interprets commands over the public API of aes_crypto. `no_std`, no allocation.
use crate::proto::*;
use aes_crypto::*;
use core::fmt::Write;
use core::mem::MaybeUninit;

pub const OUT_MAX: usize = 1 << 17;

pub struct Out {
    pub buf: [u8; OUT_MAX],
    pub len: usize,
}

impl Out {
    pub fn put(&mut self, data: &[u8]) {
        self.buf[self.len..self.len + data.len()].copy_from_slice(data);
        self.len += data.len();
    }
}

type R = Option<()>; // None: malformed command

pub struct Machine {
    b: [AesBlock; NREG],
    w: [AesBlockX2; NREG],
    q: [AesBlockX4; NREG],
    e0: [Option<Aes128Enc>; NSLOT],
    d0: [Option<Aes128Dec>; NSLOT],
    e1: [Option<Aes192Enc>; NSLOT],
    d1: [Option<Aes192Dec>; NSLOT],
    e2: [Option<Aes256Enc>; NSLOT],
    d2: [Option<Aes256Dec>; NSLOT],
    /// window of the region used by the last STORE
    win: Option<(usize, usize, u8)>,
}

pub struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Rd(data)
    }
    fn u8(&mut self) -> Option<u8> {
        let (x, r) = self.0.split_first()?;
        self.0 = r;
        Some(*x)
    }
    fn u16(&mut self) -> Option<usize> {
        Some(self.u8()? as usize | (self.u8()? as usize) << 8)
    }
    fn u32(&mut self) -> Option<usize> {
        Some(self.u16()? | self.u16()? << 16)
    }
    fn u64(&mut self) -> Option<u64> {
        Some(self.u32()? as u64 | (self.u32()? as u64) << 32)
    }
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, r) = self.0.split_at(n);
        self.0 = r;
        Some(a)
    }
    fn reg(&mut self) -> Option<usize> {
        let r = self.u8()? as usize;
        (r < NREG).then_some(r)
    }
    fn slot(&mut self) -> Option<usize> {
        let r = self.u8()? as usize;
        (r < NSLOT).then_some(r)
    }
}

struct CapWriter {
    buf: [u8; 4096],
    len: usize,
    cap: usize,
    once: bool,
}
impl Write for CapWriter {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let s = s.as_bytes();
        if self.once && self.len + s.len() > self.cap {
            // a writer with a passing difficulty
            self.cap = self.buf.len();
            return Err(core::fmt::Error);
        }
        if self.len + s.len() > self.cap.min(self.buf.len()) {
            // a writer that takes what fits and then reports an error
            let n = self.cap.min(self.buf.len()) - self.len;
            self.buf[self.len..self.len + n].copy_from_slice(&s[..n]);
            self.len += n;
            return Err(core::fmt::Error);
        }
        self.buf[self.len..self.len + s.len()].copy_from_slice(s);
        self.len += s.len();
        Ok(())
    }
}

/// Copies `data` to an address with the given misalignment and hands out the slice there.
#[repr(C, align(64))]
struct Mis([u8; 256]);

macro_rules! width_impl {
    ($mod:ident, $ty:ident, $n:literal, $field:ident) => {
        mod $mod {
            use super::*;
            const fn konst(i: usize) -> [u8; $n] {
                let mut a = [0u8; $n];
                let mut j = 0;
                while j < $n {
                    a[j] = const_byte(i, j);
                    j += 1;
                }
                a
            }
            const fn table() -> [$ty; NCONST] {
                let mut t = [$ty::new([0; $n]); NCONST];
                let mut i = 0;
                while i < NCONST {
                    t[i] = $ty::new(konst(i));
                    i += 1;
                }
                t
            }
            const CONSTS: [$ty; NCONST] = table();
            static STATICS: [$ty; NCONST] = CONSTS;

            /// Room for the keys of long chains.
            static mut KEYS: MaybeUninit<[$ty; LONG]> = MaybeUninit::uninit();

            pub fn longchain(m: &mut Machine, rd: &mut Rd, out: &mut Out) -> R {
                let dst = rd.reg()?;
                let src = rd.reg()?;
                let dir = rd.u8()?;
                let count = rd.u32()?;
                let period = rd.u8()? as usize;
                let base = rd.take(period * $n)?;
                if count > LONG || period == 0 || dir > 1 {
                    return None;
                }
                let room = core::ptr::addr_of_mut!(KEYS).cast::<$ty>();
                for i in 0..count {
                    let mut a: [u8; $n] = base[i % period * $n..][..$n].try_into().unwrap();
                    for lane in a.chunks_exact_mut(16) {
                        for (x, y) in lane.iter_mut().zip((i as u32).to_le_bytes()) {
                            *x ^= y;
                        }
                    }
                    unsafe { room.add(i).write($ty::new(a)) };
                }
                // the first `count` are initialised
                let keys = core::hint::black_box(unsafe { core::slice::from_raw_parts(room.cast_const(), count) });
                let x = m.$field[src];
                let v = if dir == 0 { x.chain_enc(keys) } else { x.chain_dec(keys) };
                let mut s = x ^ keys[0];
                for k in &keys[1..] {
                    s = if dir == 0 { s.enc(*k) } else { s.dec(*k) };
                }
                m.$field[dst] = v;
                emit(v, out);
                emit(s, out);
                Some(())
            }

            pub fn big(m: &mut Machine, store: bool, rd: &mut Rd, out: &mut Out) -> R {
                let reg = rd.reg()?;
                let off = rd.u8()? as usize % 64;
                let len = rd.u64()?;
                let fill = rd.u8()?;
                let head = if len < $n { len as usize } else { $n };
                let data = rd.take(head)?;
                let Some(area) = big_area(len, off) else {
                    out.put(&[2]);
                    return Some(());
                };
                let (before, rest) = area.split_at_mut(off);
                let (slice, after) = rest.split_at_mut(len as usize);
                if store {
                    let guard = 64.min(after.len());
                    paint(before, fill);
                    paint(slice, fill);
                    paint(&mut after[..guard], fill);
                    m.$field[reg].store_to(core::hint::black_box(&mut *slice));
                    out.put(&[1]);
                    out.put(&slice[..$n]);
                    let clean = painted(before, fill, off) && painted(&slice[$n..], fill, len as usize) && painted(&after[..guard], fill, guard);
                    out.put(&[clean as u8]);
                } else {
                    slice[..head].copy_from_slice(data);
                    match $ty::try_from(core::hint::black_box(&*slice)) {
                        Ok(v) => {
                            m.$field[reg] = v;
                            out.put(&[1]);
                            emit(v, out);
                        }
                        Err(e) => {
                            let e: usize = e;
                            out.put(&[0]);
                            out.put(&(e as u64).to_le_bytes());
                        }
                    }
                }
                Some(())
            }

            fn emit(v: $ty, out: &mut Out) {
                let bytes: [u8; $n] = v.into();
                out.put(&bytes);
            }

            pub fn load(m: &mut Machine, rd: &mut Rd, out: &mut Out) -> R {
                let dst = rd.reg()?;
                let kind = rd.u8()?;
                let align = rd.u8()? as usize % 64;
                let data = rd.take($n)?;
                let mut buf = Mis([0; 256]);
                buf.0[align..align + $n].copy_from_slice(data);
                let slice = core::hint::black_box(&buf.0[align..align + $n]);
                let v: $ty = match kind {
                    LK_NEW => $ty::new(slice.try_into().unwrap()),
                    LK_ARRAY => {
                        let a: [u8; $n] = slice.try_into().unwrap();
                        a.into()
                    }
                    LK_REF => {
                        let a: &[u8; $n] = slice.try_into().unwrap();
                        a.into()
                    }
                    LK_SLICE => match $ty::try_from(slice) {
                        Ok(v) => v,
                        Err(e) => {
                            out.put(&(e as u64).to_le_bytes());
                            return Some(());
                        }
                    },
                    LK_U128 => return super::load_u128(m, dst, slice, out),
                    _ => return None,
                };
                m.$field[dst] = v;
                emit(m.$field[dst], out);
                Some(())
            }

            pub fn get(m: &mut Machine, rd: &mut Rd, out: &mut Out) -> R {
                let src = rd.reg()?;
                match rd.u8()? {
                    GK_INTO => emit(m.$field[src], out),
                    GK_STORE => {
                        let mut a = [0x5au8; $n];
                        m.$field[src].store_to(&mut a);
                        out.put(&a);
                    }
                    GK_U128 if $n == 16 => {
                        let x: u128 = m.b[src].into();
                        out.put(&x.to_be_bytes());
                    }
                    _ => return None,
                }
                Some(())
            }

            pub fn tryfrom(m: &mut Machine, rd: &mut Rd, out: &mut Out) -> R {
                let dst = rd.reg()?;
                let place = rd.u8()?;
                let off = rd.u8()? as usize;
                let len = rd.u16()?;
                let data = rd.take(len)?;
                let region = crate::region();
                let start = super::place(place, off, len)?;
                m.win = None;
                region[start..start + len].copy_from_slice(data);
                match $ty::try_from(core::hint::black_box(&region[start..start + len])) {
                    Ok(v) => {
                        m.$field[dst] = v;
                        out.put(&[1]);
                        emit(v, out);
                    }
                    Err(e) => {
                        let e: usize = e;
                        out.put(&[0]);
                        out.put(&(e as u64).to_le_bytes());
                    }
                }
                Some(())
            }

            pub fn store(m: &mut Machine, rd: &mut Rd, out: &mut Out) -> R {
                let src = rd.reg()?;
                let place = rd.u8()?;
                let off = rd.u8()? as usize;
                let len = rd.u16()?;
                let fill = rd.u8()?;
                let start = super::place(place, off, len)?;
                let region = crate::region();
                region.fill(fill);
                m.win = Some((start, len, fill));
                m.$field[src].store_to(core::hint::black_box(&mut region[start..start + len]));
                super::emit_region(m, out)
            }

            pub fn un(m: &mut Machine, rd: &mut Rd, out: &mut Out) -> R {
                let dst = rd.reg()?;
                let src = rd.reg()?;
                let op = rd.u8()?;
                let x = m.$field[src];
                let v = match op {
                    UN_NOT => !x,
                    UN_ZERO => $ty::zero(),
                    UN_DEFAULT => $ty::default(),
                    #[allow(clippy::clone_on_copy)]
                    UN_CLONE => x.clone(),
                    UN_CLONE_FROM => {
                        let mut t = core::hint::black_box(m.$field[dst]);
                        #[allow(clippy::clone_on_copy)]
                        t.clone_from(&x);
                        t
                    }
                    UN_MC | UN_IMC => return super::mixcol(m, dst, src, op, out),
                    _ => return None,
                };
                m.$field[dst] = v;
                emit(v, out);
                Some(())
            }

            pub fn bin(m: &mut Machine, rd: &mut Rd, out: &mut Out) -> R {
                let dst = rd.reg()?;
                let a = m.$field[rd.reg()?];
                let b = m.$field[rd.reg()?];
                let op = rd.u8()?;
                let v = match op {
                    BI_AND => a & b,
                    BI_OR => a | b,
                    BI_XOR => a ^ b,
                    BI_AND_ASSIGN | BI_OR_ASSIGN | BI_XOR_ASSIGN => {
                        let mut t = a;
                        match op {
                            BI_AND_ASSIGN => t &= b,
                            BI_OR_ASSIGN => t |= b,
                            _ => t ^= b,
                        }
                        t
                    }
                    BI_ENC => a.enc(b),
                    BI_DEC => a.dec(b),
                    BI_ENC_LAST => a.enc_last(b),
                    BI_DEC_LAST => a.dec_last(b),
                    _ => return None,
                };
                m.$field[dst] = v;
                emit(v, out);
                Some(())
            }

            #[allow(clippy::nonminimal_bool)]
            pub fn pred(m: &mut Machine, rd: &mut Rd, out: &mut Out) -> R {
                let a = m.$field[rd.reg()?];
                let b = m.$field[rd.reg()?];
                let r = match rd.u8()? {
                    PR_EQ => a == b,
                    PR_NE => a != b,
                    PR_IS_ZERO => a.is_zero(),
                    _ => return None,
                };
                out.put(&[r as u8]);
                Some(())
            }

            pub fn chain(m: &mut Machine, rd: &mut Rd, out: &mut Out) -> R {
                const MAX: usize = CHAIN_MAX;
                let dst = rd.reg()?;
                let src = rd.reg()?;
                let dir = rd.u8()?;
                let count = rd.u16()?;
                if count > MAX {
                    return None;
                }
                let mut keys = [const { core::mem::MaybeUninit::<$ty>::uninit() }; MAX];
                for k in keys.iter_mut().take(count) {
                    let a: [u8; $n] = rd.take($n)?.try_into().unwrap();
                    k.write($ty::new(a));
                }
                // the first `count` are initialised
                let keys = core::hint::black_box(unsafe { core::slice::from_raw_parts(keys.as_ptr().cast::<$ty>(), count) });
                let v = match dir {
                    0 => m.$field[src].chain_enc(keys),
                    1 => m.$field[src].chain_dec(keys),
                    _ => return None,
                };
                m.$field[dst] = v;
                emit(v, out);
                Some(())
            }

            pub fn konstant(m: &mut Machine, rd: &mut Rd, out: &mut Out) -> R {
                let idx = rd.u8()? as usize;
                if idx >= NCONST {
                    return None;
                }
                let dst = rd.reg()?;
                let v = match rd.u8()? {
                    0 => CONSTS[idx],
                    _ => STATICS[core::hint::black_box(idx)],
                };
                m.$field[dst] = v;
                emit(v, out);
                Some(())
            }
        }
    };
}

width_impl!(w1, AesBlock, 16, b);
width_impl!(w2, AesBlockX2, 32, w);
width_impl!(w4, AesBlockX4, 64, q);

const LONG: usize = if cfg!(miri) { 1300 } else { LONG_MAX };
const BIG: usize = if cfg!(miri) { 1 << 12 } else { BIG_STATIC };
const PAINTED: usize = 1 << 20;

#[repr(C, align(64))]
struct Big([u8; BIG + 192]);
static mut BIG_AREA: Big = Big([0; BIG + 192]);

/// `off` bytes, a slice of `len` bytes, and up to 64 more.
fn big_area(len: u64, off: usize) -> Option<&'static mut [u8]> {
    if len <= BIG as u64 {
        let p = core::ptr::addr_of_mut!(BIG_AREA).cast::<u8>();
        return Some(unsafe { core::slice::from_raw_parts_mut(p, off + len as usize + 64) });
    }
    crate::huge_area(off as u64 + len + 64)
}

/// Fills a slice, except for the middle of very long ones.
fn paint(s: &mut [u8], fill: u8) {
    if s.len() <= PAINTED {
        s.fill(fill);
    } else {
        for at in spots(s.len()) {
            s[at..at + 256].fill(fill);
        }
    }
}

/// The end of a slice of `whole` bytes.
fn painted(s: &[u8], fill: u8, whole: usize) -> bool {
    if whole <= PAINTED {
        s.chunks(256).all(|c| c == &[fill; 256][..c.len()])
    } else {
        // a store moves the start of what is looked at by at most 64 bytes
        spots(s.len()).all(|at| s[at + 64..at + 192] == [fill; 128])
    }
}

/// Both ends and places at distances that are powers of two.
fn spots(n: usize) -> impl Iterator<Item = usize> {
    (8..48).filter_map(move |k| 1usize.checked_shl(k)).take_while(move |p| *p + 512 < n).chain([0, n - 256])
}

fn place(place: u8, off: usize, len: usize) -> Option<usize> {
    match place {
        PL_END => REGION.checked_sub(len),
        PL_START => Some(0),
        PL_MID => Some(128 + off),
        _ => None,
    }
    .filter(|s| s + len <= REGION)
}

fn emit_region(m: &Machine, out: &mut Out) -> R {
    let (start, len, fill) = m.win?;
    let region = crate::region();
    let lo = start.saturating_sub(64);
    let hi = (start + len + 64).min(REGION);
    out.put(&(lo as u16).to_le_bytes());
    out.put(&((hi - lo) as u16).to_le_bytes());
    out.put(&region[lo..hi]);
    let want = [fill; REGION];
    let clean = region[..lo] == want[..lo] && region[hi..] == want[hi..];
    out.put(&[clean as u8]);
    Some(())
}

fn load_u128(m: &mut Machine, dst: usize, data: &[u8], out: &mut Out) -> R {
    let a: [u8; 16] = data.try_into().ok()?;
    m.b[dst] = u128::from_be_bytes(a).into();
    put_b(m.b[dst], out);
    Some(())
}

fn put_b(v: AesBlock, out: &mut Out) {
    out.put(&<[u8; 16]>::from(v));
}
fn put_w(v: AesBlockX2, out: &mut Out) {
    out.put(&<[u8; 32]>::from(v));
}
fn put_q(v: AesBlockX4, out: &mut Out) {
    out.put(&<[u8; 64]>::from(v));
}

fn mixcol(m: &mut Machine, dst: usize, src: usize, op: u8, out: &mut Out) -> R {
    m.b[dst] = if op == UN_MC { m.b[src].mc() } else { m.b[src].imc() };
    put_b(m.b[dst], out);
    Some(())
}

fn mv(m: &mut Machine, rd: &mut Rd, out: &mut Out) -> R {
    let kind = rd.u8()?;
    let (d, s0, s1, s2, s3) = (rd.reg()?, rd.reg()?, rd.reg()?, rd.reg()?, rd.reg()?);
    match kind {
        MV_BB_W => {
            m.w[d] = (m.b[s0], m.b[s1]).into();
            put_w(m.w[d], out);
        }
        MV_W_BB => {
            let (x, y) = m.w[s0].into();
            m.b[d] = x;
            m.b[s1] = y;
            put_b(x, out);
            put_b(y, out);
        }
        MV_B_W => {
            m.w[d] = m.b[s0].into();
            put_w(m.w[d], out);
        }
        MV_BBBB_Q => {
            m.q[d] = (m.b[s0], m.b[s1], m.b[s2], m.b[s3]).into();
            put_q(m.q[d], out);
        }
        MV_Q_BBBB => {
            let (x, y, z, t): (AesBlock, AesBlock, AesBlock, AesBlock) = m.q[s0].into();
            m.b[d] = x;
            m.b[s1] = y;
            m.b[s2] = z;
            m.b[s3] = t;
            put_b(x, out);
            put_b(y, out);
            put_b(z, out);
            put_b(t, out);
        }
        MV_B_Q => {
            m.q[d] = m.b[s0].into();
            put_q(m.q[d], out);
        }
        MV_WW_Q => {
            m.q[d] = (m.w[s0], m.w[s1]).into();
            put_q(m.q[d], out);
        }
        MV_Q_WW => {
            let (x, y): (AesBlockX2, AesBlockX2) = m.q[s0].into();
            m.w[d] = x;
            m.w[s1] = y;
            put_w(x, out);
            put_w(y, out);
        }
        MV_W_Q => {
            m.q[d] = m.w[s0].into();
            put_q(m.q[d], out);
        }
        _ => return None,
    }
    Some(())
}

fn encrypt_with<const K: usize, E: AesEncrypt<K>>(m: (&mut [AesBlock; NREG], &mut [AesBlockX2; NREG], &mut [AesBlockX4; NREG]), e: &E, width: u8, dst: usize, src: usize, out: &mut Out) -> R {
    match width {
        1 => {
            m.0[dst] = e.encrypt_block(m.0[src]);
            put_b(m.0[dst], out);
        }
        2 => {
            m.1[dst] = e.encrypt_2_blocks(m.1[src]);
            put_w(m.1[dst], out);
        }
        4 => {
            m.2[dst] = e.encrypt_4_blocks(m.2[src]);
            put_q(m.2[dst], out);
        }
        _ => return None,
    }
    Some(())
}

fn decrypt_with<const K: usize, D: AesDecrypt<K>>(m: (&mut [AesBlock; NREG], &mut [AesBlockX2; NREG], &mut [AesBlockX4; NREG]), e: &D, width: u8, dst: usize, src: usize, out: &mut Out) -> R {
    match width {
        1 => {
            m.0[dst] = e.decrypt_block(m.0[src]);
            put_b(m.0[dst], out);
        }
        2 => {
            m.1[dst] = e.decrypt_2_blocks(m.1[src]);
            put_w(m.1[dst], out);
        }
        4 => {
            m.2[dst] = e.decrypt_4_blocks(m.2[src]);
            put_q(m.2[dst], out);
        }
        _ => return None,
    }
    Some(())
}

macro_rules! styles {
    ($w:ident, $v:expr, $style:expr, $t:literal $(, $x:literal, $y:literal)?) => {
        match ($style >> 1, $style & 1 != 0) {
            (FS_PLAIN, false) => write!($w, concat!("{:", $t, "}"), $v),
            (FS_PLAIN, true) => write!($w, concat!("{:#", $t, "}"), $v),
            (FS_WIDE, false) => write!($w, concat!("{:*>70", $t, "}"), $v),
            (FS_WIDE, true) => write!($w, concat!("{:*>#70", $t, "}"), $v),
            (FS_SHORT, false) => write!($w, concat!("{:.3", $t, "}"), $v),
            (FS_SHORT, true) => write!($w, concat!("{:#.3", $t, "}"), $v),
            (FS_SIGN, false) => write!($w, concat!("{:+", $t, "}"), $v),
            (FS_SIGN, true) => write!($w, concat!("{:+#", $t, "}"), $v),
            (FS_ZERO, false) => write!($w, concat!("{:0140", $t, "}"), $v),
            (FS_ZERO, true) => write!($w, concat!("{:#0140", $t, "}"), $v),
            (FS_NARROW, false) => write!($w, concat!("{:<3", $t, "}"), $v),
            (FS_NARROW, true) => write!($w, concat!("{:<#3", $t, "}"), $v),
            $(
                (FS_HEX, false) => write!($w, concat!("{:", $x, "}"), $v),
                (FS_HEX, true) => write!($w, concat!("{:#", $x, "}"), $v),
                (FS_UHEX, false) => write!($w, concat!("{:", $y, "}"), $v),
                (FS_UHEX, true) => write!($w, concat!("{:#", $y, "}"), $v),
            )?
            _ => return None,
        }
    };
}

fn fmt(m: &mut Machine, rd: &mut Rd, out: &mut Out) -> R {
    let width = rd.u8()?;
    let src = rd.reg()?;
    let kind = rd.u8()?;
    let style = rd.u8()?;
    let cap = rd.u16()?;
    let once = rd.u8()? != 0;
    let mut w = CapWriter { buf: [0; 4096], len: 0, cap, once };
    let r = match width {
        1 => match kind {
            FM_DISPLAY => styles!(w, m.b[src], style, ""),
            FM_DEBUG => styles!(w, m.b[src], style, "?", "x?", "X?"),
            FM_LHEX => styles!(w, m.b[src], style, "x"),
            FM_UHEX => styles!(w, m.b[src], style, "X"),
            FM_BIN => styles!(w, m.b[src], style, "b"),
            _ => return None,
        },
        2 => styles!(w, m.w[src], style, "?", "x?", "X?"),
        4 => styles!(w, m.q[src], style, "?", "x?", "X?"),
        _ => return None,
    };
    out.put(&[r.is_ok() as u8]);
    out.put(&w.buf[..w.len]);
    Some(())
}

fn clone<T: Clone>(slot: &mut [Option<T>; NSLOT], s: usize, d: usize, from: bool) -> R {
    let x = slot[s].as_ref()?.clone();
    match (&mut slot[d], from) {
        (Some(y), true) => y.clone_from(&x),
        (y, _) => *y = Some(x),
    }
    Some(())
}

macro_rules! sizes {
    ($size:expr, $role:expr, $m:ident, |$slot:ident, $other:ident, $kl:ident| enc $enc:expr, dec $dec:expr) => {
        match ($size, $role) {
            (0, 0) => { let ($slot, $other) = (&mut $m.e0, &mut $m.d0); const $kl: usize = 16; #[allow(unused)] type This = Aes128Enc; $enc }
            (0, 1) => { let ($slot, $other) = (&mut $m.d0, &mut $m.e0); const $kl: usize = 16; #[allow(unused)] type This = Aes128Dec; $dec }
            (1, 0) => { let ($slot, $other) = (&mut $m.e1, &mut $m.d1); const $kl: usize = 24; #[allow(unused)] type This = Aes192Enc; $enc }
            (1, 1) => { let ($slot, $other) = (&mut $m.d1, &mut $m.e1); const $kl: usize = 24; #[allow(unused)] type This = Aes192Dec; $dec }
            (2, 0) => { let ($slot, $other) = (&mut $m.e2, &mut $m.d2); const $kl: usize = 32; #[allow(unused)] type This = Aes256Enc; $enc }
            (2, 1) => { let ($slot, $other) = (&mut $m.d2, &mut $m.e2); const $kl: usize = 32; #[allow(unused)] type This = Aes256Dec; $dec }
            _ => return None,
        }
    };
}

impl Machine {
    pub fn new() -> Self {
        Machine {
            b: [AesBlock::zero(); NREG],
            w: [AesBlockX2::zero(); NREG],
            q: [AesBlockX4::zero(); NREG],
            e0: [const { None }; NSLOT],
            d0: [const { None }; NSLOT],
            e1: [const { None }; NSLOT],
            d1: [const { None }; NSLOT],
            e2: [const { None }; NSLOT],
            d2: [const { None }; NSLOT],
            win: None,
        }
    }

    pub fn exec(&mut self, cmd: &[u8], out: &mut Out) -> R {
        let m = self;
        let mut rd = Rd::new(cmd);
        let op = rd.u8()?;
        macro_rules! by_width {
            ($f:ident) => {
                match rd.u8()? {
                    1 => w1::$f(m, &mut rd, out),
                    2 => w2::$f(m, &mut rd, out),
                    4 => w4::$f(m, &mut rd, out),
                    _ => None,
                }
            };
        }
        match op {
            OP_LOAD => by_width!(load),
            OP_GET => by_width!(get),
            OP_TRYFROM => by_width!(tryfrom),
            OP_STORE => by_width!(store),
            OP_REGION => emit_region(m, out),
            OP_RESET => {
                *m = Machine::new();
                Some(())
            }
            OP_REPEAT => {
                let (size, role, s, width, dst, src, n) = (rd.u8()?, rd.u8()?, rd.slot()?, rd.u8()?, rd.reg()?, rd.reg()?, rd.u16()?);
                let Machine { b, w, q, .. } = m;
                match width {
                    1 => b[dst] = b[src],
                    2 => w[dst] = w[src],
                    4 => q[dst] = q[src],
                    _ => return None,
                }
                let at = out.len;
                for _ in 0..n {
                    out.len = at;
                    sizes!(size, role, m, |slot, _other, K|
                        enc encrypt_with::<K, _>((b, w, q), slot[s].as_ref()?, width, dst, dst, out),
                        dec decrypt_with::<K, _>((b, w, q), slot[s].as_ref()?, width, dst, dst, out))?;
                }
                Some(())
            }
            OP_UN => by_width!(un),
            OP_BIN => by_width!(bin),
            OP_PRED => by_width!(pred),
            OP_CHAIN => by_width!(chain),
            OP_LOOP => {
                let n = rd.u32()?;
                let all = rd.0;
                let at = out.len;
                let mut first = [0; LOOP_OUT];
                let mut len = 0;
                for i in 0..n {
                    out.len = at;
                    let mut p = all;
                    while let [a, b, r @ ..] = p {
                        let k = *a as usize | (*b as usize) << 8;
                        if r.len() < k || r.first() == Some(&OP_LOOP) {
                            return None;
                        }
                        m.exec(&r[..k], out)?;
                        p = &r[k..];
                    }
                    let now = &out.buf[at..out.len];
                    if i == 0 {
                        len = now.len();
                        first.get_mut(..len)?.copy_from_slice(now);
                    } else if *now != first[..len] {
                        out.len = at;
                        out.put(&first[..len]);
                        out.put(&(i as u32).to_le_bytes());
                        return Some(());
                    }
                }
                out.put(&(n as u32).to_le_bytes());
                Some(())
            }
            OP_LONGCHAIN => by_width!(longchain),
            OP_BIG => {
                let store = rd.u8()? != 0;
                match rd.u8()? {
                    1 => w1::big(m, store, &mut rd, out),
                    2 => w2::big(m, store, &mut rd, out),
                    4 => w4::big(m, store, &mut rd, out),
                    _ => None,
                }
            }
            OP_CONST => by_width!(konstant),
            OP_MOVE => mv(m, &mut rd, out),
            OP_FMT => fmt(m, &mut rd, out),
            OP_KEY => {
                let (size, role, s) = (rd.u8()?, rd.u8()?, rd.slot()?);
                sizes!(size, role, m, |slot, _other, K|
                    enc { let k: [u8; K] = rd.take(K)?.try_into().ok()?; slot[s] = Some(This::from(k)); },
                    dec { let k: [u8; K] = rd.take(K)?.try_into().ok()?; slot[s] = Some(This::from(k)); });
                Some(())
            }
            OP_CRYPT => {
                let (size, role, s, width, dst, src) = (rd.u8()?, rd.u8()?, rd.slot()?, rd.u8()?, rd.reg()?, rd.reg()?);
                let Machine { b, w, q, .. } = m;
                sizes!(size, role, m, |slot, _other, K|
                    enc encrypt_with::<K, _>((b, w, q), slot[s].as_ref()?, width, dst, src, out),
                    dec decrypt_with::<K, _>((b, w, q), slot[s].as_ref()?, width, dst, src, out))
            }
            OP_SWITCH => {
                let (size, role, s, d) = (rd.u8()?, rd.u8()?, rd.slot()?, rd.slot()?);
                sizes!(size, role, m, |slot, other, K|
                    enc { let x = AesEncrypt::<K>::decrypter(slot[s].as_ref()?); other[d] = Some(x); },
                    dec { let x = AesDecrypt::<K>::encrypter(slot[s].as_ref()?); other[d] = Some(x); });
                Some(())
            }
            OP_CLONE => {
                let (size, role, s, d, from) = (rd.u8()?, rd.u8()?, rd.slot()?, rd.slot()?, rd.u8()? != 0);
                sizes!(size, role, m, |slot, _other, _K|
                    enc clone(slot, s, d, from)?,
                    dec clone(slot, s, d, from)?);
                Some(())
            }
            OP_FMTKEY => {
                let (size, role, s) = (rd.u8()?, rd.u8()?, rd.slot()?);
                let mut w = CapWriter { buf: [0; 4096], len: 0, cap: 4096, once: false };
                sizes!(size, role, m, |slot, _other, _K|
                    enc { let _ = write!(w, "{:?}", slot[s].as_ref()?); },
                    dec { let _ = write!(w, "{:?}", slot[s].as_ref()?); });
                Some(())
            }
            #[cfg(feature = "cov")]
            OP_COV => {
                extern "C" {
                    fn agent_cov(pairs: *mut u8, count: *mut u32) -> u32;
                }
                let (mut pairs, mut n) = ([0; 17 * 64], 0);
                let fresh = unsafe { agent_cov(pairs.as_mut_ptr(), &mut n) };
                out.put(&fresh.to_le_bytes());
                out.put(&pairs[..17 * n as usize]);
                Some(())
            }
            OP_HELLO => {
                out.put(&[
                    cfg!(debug_assertions) as u8,
                    cfg!(feature = "std") as u8,
                    (core::mem::size_of::<usize>() * 8) as u8,
                    cfg!(target_endian = "big") as u8,
                    cfg!(feature = "threads") as u8,
                ]);
                Some(())
            }
            #[cfg(feature = "threads")]
            OP_RACE => crate::threads::race(rd.0, out),
            #[cfg(feature = "threads")]
            OP_THREADS => crate::threads::run(&mut rd, out),
            _ => None,
        }
    }
}

#[cfg(feature = "threads")]
impl<'a> Rd<'a> {
    pub fn byte(&mut self) -> Option<u8> {
        self.u8()
    }
    pub fn word(&mut self) -> Option<usize> {
        self.u16()
    }
    pub fn bytes(&mut self, n: usize) -> Option<&'a [u8]> {
        self.take(n)
    }
}
