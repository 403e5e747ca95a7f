//! Reference model written from FIPS-197: byte-wise, GF(2^8) arithmetic from first principles, no code shared with the
//! library under test. A state is the 16 bytes of a block in input order (column-major, FIPS-197 section 3.4).
use std::sync::OnceLock;

pub type B16 = [u8; 16];

pub fn xtime(x: u8) -> u8 {
    (x << 1) ^ (if x & 0x80 != 0 { 0x1b } else { 0 })
}

pub fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}

struct Tables {
    sbox: [u8; 256],
    inv: [u8; 256],
    mul: [[u8; 256]; 16],
}

fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tables { sbox: [0; 256], inv: [0; 256], mul: [[0; 256]; 16] };
        for x in 0..=255u8 {
            // multiplicative inverse by search, then the affine map of section 5.1.1
            let i = (0..=255u8).find(|&y| gmul(x, y) == 1).unwrap_or(0);
            let mut s = 0u8;
            for bit in 0..8 {
                let b = |k: u32| i >> (k % 8) & 1;
                let v = b(bit) ^ b(bit + 4) ^ b(bit + 5) ^ b(bit + 6) ^ b(bit + 7) ^ (0x63 >> bit & 1);
                s |= v << bit;
            }
            t.sbox[x as usize] = s;
            t.inv[s as usize] = x;
            for c in 0..16 {
                t.mul[c][x as usize] = gmul(x, c as u8);
            }
        }
        t
    })
}

pub fn sub_bytes(s: B16) -> B16 {
    let t = tables();
    s.map(|x| t.sbox[x as usize])
}
pub fn inv_sub_bytes(s: B16) -> B16 {
    let t = tables();
    s.map(|x| t.inv[x as usize])
}
pub fn shift_rows(s: B16) -> B16 {
    std::array::from_fn(|i| {
        let (row, col) = (i % 4, i / 4);
        s[row + 4 * ((col + row) % 4)]
    })
}
pub fn inv_shift_rows(s: B16) -> B16 {
    std::array::from_fn(|i| {
        let (row, col) = (i % 4, i / 4);
        s[row + 4 * ((col + 4 - row) % 4)]
    })
}
fn mix(s: B16, coef: [usize; 4]) -> B16 {
    let t = tables();
    std::array::from_fn(|i| {
        let (row, col) = (i % 4, i / 4);
        (0..4).fold(0, |a, k| a ^ t.mul[coef[(k + 4 - row) % 4]][s[4 * col + k] as usize])
    })
}
pub fn mix_columns(s: B16) -> B16 {
    mix(s, [2, 3, 1, 1])
}
pub fn inv_mix_columns(s: B16) -> B16 {
    mix(s, [14, 11, 13, 9])
}
pub fn xor(a: B16, b: B16) -> B16 {
    std::array::from_fn(|i| a[i] ^ b[i])
}

pub fn enc(s: B16, k: B16) -> B16 {
    xor(mix_columns(shift_rows(sub_bytes(s))), k)
}
pub fn enc_last(s: B16, k: B16) -> B16 {
    xor(shift_rows(sub_bytes(s)), k)
}
/// One round of the equivalent inverse cipher (section 5.3.5): InvSubBytes, InvShiftRows, InvMixColumns, key.
pub fn dec(s: B16, k: B16) -> B16 {
    xor(inv_mix_columns(inv_shift_rows(inv_sub_bytes(s))), k)
}
pub fn dec_last(s: B16, k: B16) -> B16 {
    xor(inv_shift_rows(inv_sub_bytes(s)), k)
}

fn sub_word(w: [u8; 4]) -> [u8; 4] {
    let t = tables();
    w.map(|x| t.sbox[x as usize])
}

fn schedule_step(i: usize, nk: usize, mut temp: [u8; 4]) -> [u8; 4] {
    if i % nk == 0 {
        temp.rotate_left(1);
        temp = sub_word(temp);
        let mut rc = 1;
        for _ in 1..i / nk {
            rc = xtime(rc);
        }
        temp[0] ^= rc;
    } else if nk > 6 && i % nk == 4 {
        temp = sub_word(temp);
    }
    temp
}

/// The word the schedule's function of step i (a multiple of nk, or of 4 for nk = 8) maps to the given one.
pub fn schedule_step_inverse(i: usize, nk: usize, want: [u8; 4]) -> [u8; 4] {
    let t = tables();
    let mut w = want;
    if i % nk == 0 {
        let c = schedule_step(i, nk, [0; 4]);
        w[0] ^= c[0] ^ t.sbox[0];
    }
    w = w.map(|x| t.inv[x as usize]);
    if i % nk == 0 {
        w.rotate_right(1);
    }
    w
}

/// Section 5.2. The result has Nr + 1 round keys.
pub fn key_expansion(key: &[u8]) -> Vec<B16> {
    let nk = key.len() / 4;
    let words = 4 * (nk + 7);
    let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
    for i in nk..words {
        let t = schedule_step(i, nk, w[i - 1]);
        w.push(std::array::from_fn(|j| w[i - nk][j] ^ t[j]));
    }
    w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect()
}

/// The key whose schedule has the given Nk words starting at word `at`.
pub fn key_with_words(win: &[u8], at: usize) -> Vec<u8> {
    let nk = win.len() / 4;
    let mut w: Vec<[u8; 4]> = win.chunks(4).map(|c| c.try_into().unwrap()).collect();
    for i in (nk..at + nk).rev() {
        // w[i] = w[i - nk] ^ step(w[i - 1]); the window holds words i-nk+1 ..= i
        let prev = if nk == 1 { unreachable!() } else { w[nk - 2] };
        let t = schedule_step(i, nk, prev);
        let last = w.pop().unwrap();
        w.insert(0, std::array::from_fn(|j| last[j] ^ t[j]));
    }
    w.concat()
}

pub fn encrypt(rk: &[B16], b: B16) -> B16 {
    let nr = rk.len() - 1;
    let mut s = xor(b, rk[0]);
    for k in &rk[1..nr] {
        s = enc(s, *k);
    }
    enc_last(s, rk[nr])
}

/// The straightforward inverse cipher of section 5.3 (not the equivalent one).
pub fn decrypt(rk: &[B16], b: B16) -> B16 {
    let nr = rk.len() - 1;
    let mut s = xor(b, rk[nr]);
    for k in rk[1..nr].iter().rev() {
        s = inv_mix_columns(xor(inv_sub_bytes(inv_shift_rows(s)), *k));
    }
    xor(inv_sub_bytes(inv_shift_rows(s)), rk[0])
}

/// A plaintext whose state before round `r` (1-based, after the key addition of round r - 1) is `want`.
pub fn plaintext_for_state(rk: &[B16], want: B16, r: usize) -> B16 {
    let mut s = want;
    for i in (1..r).rev() {
        s = inv_sub_bytes(inv_shift_rows(inv_mix_columns(xor(s, rk[i]))));
    }
    xor(s, rk[0])
}

fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// The model against published vectors (FIPS-197 appendices A and C, SP 800-38A F.1): errors here are harness errors.
pub fn self_test() -> Result<(), String> {
    let v = [
        ("000102030405060708090a0b0c0d0e0f", "00112233445566778899aabbccddeeff", "69c4e0d86a7b0430d8cdb78070b4c55a"),
        ("000102030405060708090a0b0c0d0e0f1011121314151617", "00112233445566778899aabbccddeeff", "dda97ca4864cdfe06eaf70a0ec0d7191"),
        ("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f", "00112233445566778899aabbccddeeff", "8ea2b7ca516745bfeafc49904b496089"),
        ("2b7e151628aed2a6abf7158809cf4f3c", "3243f6a8885a308d313198a2e0370734", "3925841d02dc09fbdc118597196a0b32"),
        ("2b7e151628aed2a6abf7158809cf4f3c", "6bc1bee22e409f96e93d7e117393172a", "3ad77bb40d7a3660a89ecaf32466ef97"),
        ("8e73b0f7da0e6452c810f32b809079e562f8ead2522c6b7b", "ae2d8a571e03ac9c9eb76fac45af8e51", "974104846d0ad3ad7734ecb3ecee4eef"),
        ("603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4", "30c81c46a35ce411e5fbc1191a0a52ef", "b6ed21b99ca6f4f9f153e7b1beafed1d"),
    ];
    for (k, p, c) in v {
        let (k, p, c) = (hex(k), B16::try_from(hex(p)).unwrap(), B16::try_from(hex(c)).unwrap());
        let rk = key_expansion(&k);
        if encrypt(&rk, p) != c || decrypt(&rk, c) != p {
            return Err(format!("model fails the vector for a {}-byte key", k.len()));
        }
        // the equivalent inverse cipher must agree with the straightforward one
        let nr = rk.len() - 1;
        let mut s = xor(c, rk[nr]);
        for k in rk[1..nr].iter().rev() {
            s = dec(s, inv_mix_columns(*k));
        }
        if dec_last(s, rk[0]) != p {
            return Err("equivalent inverse cipher differs".into());
        }
        let nk = k.len() / 4;
        for at in 0..=4 * rk.len() - nk {
            if key_with_words(&rk.concat()[4 * at..4 * (at + nk)], at) != k {
                return Err("key schedule inversion".into());
            }
        }
        for i in (1..4 * (nk + 7)).filter(|i| i % nk == 0 || nk == 8 && i % 4 == 0) {
            let w = [1, 2, 0, i as u8];
            if schedule_step(i, nk, schedule_step_inverse(i, nk, w)) != w {
                return Err("inverse of a schedule step".into());
            }
        }
        for r in 1..=nr {
            let mut t = xor(plaintext_for_state(&rk, c, r), rk[0]);
            for k in &rk[1..r] {
                t = enc(t, *k);
            }
            if t != c {
                return Err("state targeting".into());
            }
        }
    }
    let rk = key_expansion(&hex("2b7e151628aed2a6abf7158809cf4f3c"));
    if rk[10][..] != hex("d014f9a8c9ee2589e13f0cc8b6630ca6")[..] {
        return Err("key expansion vector".into());
    }
    Ok(())
}
