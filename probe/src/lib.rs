//! Names every public item of the library, with its exact type, from a crate without std or alloc: what compiles here is
//! the API that every configuration has to offer. The exported functions make the compiler generate code for all of it.
#![no_std]
#![allow(clippy::all)]

use aes_crypto::{
    Aes128Dec, Aes128Enc, Aes192Dec, Aes192Enc, Aes256Dec, Aes256Enc, AesBlock, AesBlockX2, AesBlockX4, AesDecrypt, AesEncrypt,
};
use core::fmt::{self, Binary, Debug, Display, LowerHex, UpperHex, Write};
use core::hint::black_box;
use core::ops::{BitAnd, BitAndAssign, BitOr, BitOrAssign, BitXor, BitXorAssign, Not};
use core::panic::{RefUnwindSafe, UnwindSafe};

// ---- what every value type is
trait Value<const N: usize>:
    Copy + Clone + Default + PartialEq + Eq + Debug + Send + Sync + Unpin + UnwindSafe + RefUnwindSafe + Sized + 'static
    + From<[u8; N]> + for<'a> From<&'a [u8; N]> + for<'a> TryFrom<&'a [u8], Error = usize> + Into<[u8; N]>
    + BitAnd<Output = Self> + BitOr<Output = Self> + BitXor<Output = Self> + Not<Output = Self>
    + BitAndAssign + BitOrAssign + BitXorAssign
{
}
impl<const N: usize, T> Value<N> for T where
    T: Copy + Clone + Default + PartialEq + Eq + Debug + Send + Sync + Unpin + UnwindSafe + RefUnwindSafe + Sized + 'static
        + From<[u8; N]> + for<'a> From<&'a [u8; N]> + for<'a> TryFrom<&'a [u8], Error = usize> + Into<[u8; N]>
        + BitAnd<Output = Self> + BitOr<Output = Self> + BitXor<Output = Self> + Not<Output = Self>
        + BitAndAssign + BitOrAssign + BitXorAssign
{
}

// ---- what every cipher is
trait Object: Clone + Debug + Send + Sync + Unpin + UnwindSafe + RefUnwindSafe + Sized + 'static {}
impl<T: Clone + Debug + Send + Sync + Unpin + UnwindSafe + RefUnwindSafe + Sized + 'static> Object for T {}

fn value<const N: usize, T: Value<N>>() {}
fn is<T: Into<U>, U: From<T>>() {}
fn object<T: Object>() {}
fn pair<const N: usize, E, D>()
where
    E: AesEncrypt<N, Decrypter = D> + From<[u8; N]> + Object,
    D: AesDecrypt<N, Encrypter = E> + From<[u8; N]> + Object,
{
}

pub fn bounds() {
    value::<16, AesBlock>();
    value::<32, AesBlockX2>();
    value::<64, AesBlockX4>();
    fn text<T: Debug + Display + Binary + LowerHex + UpperHex>() {}
    text::<AesBlock>();
    is::<u128, AesBlock>();
    is::<AesBlock, u128>();
    is::<AesBlock, [u8; 16]>();
    is::<AesBlockX2, [u8; 32]>();
    is::<AesBlockX4, [u8; 64]>();
    is::<AesBlock, AesBlockX2>();
    is::<(AesBlock, AesBlock), AesBlockX2>();
    is::<AesBlockX2, (AesBlock, AesBlock)>();
    is::<AesBlock, AesBlockX4>();
    is::<AesBlockX2, AesBlockX4>();
    is::<(AesBlockX2, AesBlockX2), AesBlockX4>();
    is::<AesBlockX4, (AesBlockX2, AesBlockX2)>();
    is::<(AesBlock, AesBlock, AesBlock, AesBlock), AesBlockX4>();
    is::<AesBlockX4, (AesBlock, AesBlock, AesBlock, AesBlock)>();
    object::<Aes128Enc>();
    pair::<16, Aes128Enc, Aes128Dec>();
    pair::<24, Aes192Enc, Aes192Dec>();
    pair::<32, Aes256Enc, Aes256Dec>();
}

// ---- functions of the value types, with their exact types
macro_rules! functions {
    ($name:ident, $t:ty, $n:literal) => {
        pub mod $name {
            use super::*;
            pub const ONE: $t = <$t>::new([1; $n]);
            pub static KEPT: $t = <$t>::new([2; $n]);
            pub const NEW: fn([u8; $n]) -> $t = <$t>::new;
            pub const STORE: fn($t, &mut [u8]) = <$t>::store_to;
            pub const ZERO: fn() -> $t = <$t>::zero;
            pub const IS_ZERO: fn($t) -> bool = <$t>::is_zero;
            pub const ENC: [fn($t, $t) -> $t; 4] = [<$t>::enc, <$t>::dec, <$t>::enc_last, <$t>::dec_last];
            pub const CHAIN: [fn($t, &[$t]) -> $t; 2] = [<$t>::chain_enc, <$t>::chain_dec];

            struct Sum(u32);
            impl Write for Sum {
                fn write_str(&mut self, s: &str) -> fmt::Result {
                    self.0 = s.bytes().fold(self.0, |a, b| a.wrapping_mul(31).wrapping_add(b as u32));
                    Ok(())
                }
            }

            pub fn run(data: &[u8], out: &mut [u8]) -> u32 {
                let a = match <$t>::try_from(data) {
                    Ok(x) => x,
                    Err(n) => return n as u32,
                };
                let b: $t = NEW([data[0]; $n]);
                let c: $t = (&[data[1]; $n]).into();
                let d: $t = [data[2]; $n].into();
                let mut x = ((a & b) | !c) ^ d;
                x &= ONE | KEPT;
                x |= a;
                x ^= <$t>::default();
                for f in black_box(ENC) {
                    x = f(x, black_box(b));
                }
                x = x.enc(a).dec(b).enc_last(c).dec_last(d);
                for f in black_box(CHAIN) {
                    x = f(x, black_box(&[a, b, c]));
                }
                x = x.chain_enc(&[a, b]).chain_dec(&[c]);
                let mut s = Sum(0);
                let _ = write!(s, "{x:?}{x:#?}");
                x.store_to(out);
                black_box(STORE)(x, out);
                let bytes: [u8; $n] = x.into();
                s.0 ^ bytes[0] as u32 ^ (x == a) as u32 ^ (x.is_zero() as u32) ^ (black_box(IS_ZERO)(ZERO()) as u32)
            }
        }
    };
}
functions!(w1, AesBlock, 16);
functions!(w2, AesBlockX2, 32);
functions!(w4, AesBlockX4, 64);

pub const MIX: [fn(AesBlock) -> AesBlock; 2] = [AesBlock::mc, AesBlock::imc];

struct Null;
impl Write for Null {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        black_box(s);
        Ok(())
    }
}

/// A user's own code that is generic over the ciphers, through the traits alone.
fn generic<const N: usize, E: AesEncrypt<N>>(key: [u8; N], block: AesBlock) -> AesBlock {
    let e = E::from(key);
    let d: E::Decrypter = e.decrypter();
    let e2: E = d.encrypter();
    let two: AesBlockX2 = block.into();
    let four: AesBlockX4 = two.into();
    let (a, b) = d.clone().decrypt_2_blocks(e.encrypt_2_blocks(two)).into();
    let (c, _, _, f) = e2.clone().encrypt_4_blocks(d.decrypt_4_blocks(four)).into();
    let g: (AesBlockX2, AesBlockX2) = four.into();
    let _ = write!(Null, "{e:?}{d:?}{g:?}");
    d.decrypt_block(e2.encrypt_block(a ^ b)) ^ c ^ f
}

#[no_mangle]
pub extern "C" fn probe(data: *const u8, len: usize, out: *mut u8) -> u32 {
    let data = unsafe { core::slice::from_raw_parts(data, len) };
    let out = unsafe { core::slice::from_raw_parts_mut(out, 64) };
    if len < 64 {
        return 0;
    }
    bounds();
    let mut n = w1::run(data, out) ^ w2::run(data, out) ^ w4::run(data, out);
    let mut b = AesBlock::from(data[0] as u128).mc().imc();
    for f in black_box(MIX) {
        b = f(b);
    }
    let _ = write!(Null, "{b}{b:?}{b:x}{b:X}{b:b}{b:#}{b:#?}{b:#x}{b:#X}{b:#b}");
    let mut key = [0; 32];
    key.copy_from_slice(&data[..32]);
    let mut k24 = [0; 24];
    k24.copy_from_slice(&data[..24]);
    let mut k16 = [0; 16];
    k16.copy_from_slice(&data[..16]);
    b = generic::<16, Aes128Enc>(k16, b);
    b = generic::<24, Aes192Enc>(k24, b);
    b = generic::<32, Aes256Enc>(key, b);
    b = Aes128Dec::from(k16).encrypter().encrypt_block(b);
    b = Aes192Dec::from(k24).encrypter().encrypt_block(b);
    b = Aes256Dec::from(key).encrypter().encrypt_block(b);
    n ^= u128::from(b) as u32;
    n
}

/// Usable in constant expressions everywhere.
pub const BLOCKS: ([AesBlock; 2], AesBlockX2, AesBlockX4) = ([AesBlock::new([7; 16]); 2], AesBlockX2::new([8; 32]), AesBlockX4::new([9; 64]));
