//! Concurrent use of one shared encrypter/decrypter pair plus per-thread ciphers with related keys.
use crate::machine::{Machine, Out, Rd, OUT_MAX};
use crate::proto::{ST_OK, ST_PANIC};
use aes_crypto::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Barrier;

fn key_from<const K: usize>(base: &[u8], x: &[u8; 16], i: usize) -> [u8; K] {
    let mut k: [u8; K] = base.try_into().unwrap();
    // related keys: only a few trailing or leading bytes differ from the shared key
    match i % 3 {
        0 => k[K - 1] ^= x[0],
        1 => k[0] ^= x[1],
        _ => k[K / 2..K / 2 + 4].copy_from_slice(&x[4..8]),
    }
    k
}

fn body<const K: usize, E: AesEncrypt<K>>(e: &E, d: &E::Decrypter, key: &[u8], start: [u8; 16], iters: usize, variant: u8) -> [u8; 16] {
    let mut x = start;
    for i in 0..iters {
        x = e.encrypt_block(x.into()).into();
        match variant {
            0 => {}
            1 => {
                let e2 = E::from(key_from::<K>(key, &x, i));
                x = e2.encrypt_block(x.into()).into();
            }
            2 => {
                let k2 = key_from::<K>(key, &x, i);
                let d2 = E::Decrypter::from(k2);
                x = d2.decrypt_block(x.into()).into();
                x = d.decrypt_block(x.into()).into();
            }
            _ => {
                let w = AesBlockX4::from(AesBlock::from(x));
                let w = d.decrypt_4_blocks(e.encrypt_4_blocks(w) ^ AesBlockX4::from(AesBlock::from(start)));
                let (_, _, c, _): (AesBlock, AesBlock, AesBlock, AesBlock) = w.into();
                x = e.clone().decrypter().encrypter().encrypt_block(c).into();
            }
        }
    }
    x
}

fn go<const K: usize, E: AesEncrypt<K> + Send + Sync>(rd: &mut Rd, out: &mut Out) -> Option<()>
where
    E::Decrypter: Send + Sync,
{
    let n = rd.byte()? as usize;
    let iters = rd.word()?;
    let variant = rd.byte()?;
    let seq = rd.byte()? != 0;
    let key = rd.bytes(K)?;
    let starts = rd.bytes(16 * n)?;
    let e = E::from(<[u8; K]>::try_from(key).ok()?);
    let d = e.decrypter();
    if seq {
        for t in 0..n {
            let st: [u8; 16] = starts[16 * t..16 * t + 16].try_into().unwrap();
            out.put(&body::<K, E>(&e, &d, key, st, iters, variant));
        }
        return Some(());
    }
    let barrier = Barrier::new(n);
    let res: Vec<[u8; 16]> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (e, d, b) = (&e, &d, &barrier);
                let st: [u8; 16] = starts[16 * t..16 * t + 16].try_into().unwrap();
                s.spawn(move || {
                    b.wait();
                    body::<K, E>(e, d, key, st, iters, variant)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker thread panicked")).collect()
    });
    for r in res {
        out.put(&r);
    }
    Some(())
}

pub fn run(rd: &mut Rd, out: &mut Out) -> Option<()> {
    match rd.byte()? {
        0 => go::<16, Aes128Enc>(rd, out),
        1 => go::<24, Aes192Enc>(rd, out),
        2 => go::<32, Aes256Enc>(rd, out),
        _ => None,
    }
}

/// Threads that start at the same moment, each with commands and registers of its own.
pub fn race(mut p: &[u8], out: &mut Out) -> Option<()> {
    let word = |p: &mut &[u8]| {
        let [a, b, r @ ..] = *p else { return None };
        *p = r;
        Some(*a as usize | (*b as usize) << 8)
    };
    let (&n, rest) = p.split_first()?;
    p = rest;
    let mut todo = vec![];
    for _ in 0..n {
        let pause = word(&mut p)?;
        let len = word(&mut p)?;
        todo.push((pause, p.get(..len)?));
        p = &p[len..];
    }
    let waiting = AtomicUsize::new(n as usize);
    let res: Vec<Option<Vec<u8>>> = std::thread::scope(|s| {
        let hs: Vec<_> = todo
            .into_iter()
            .map(|(pause, mut p)| {
                let waiting = &waiting;
                s.spawn(move || {
                    let mut m = Machine::new();
                    let mut out = Box::new(Out { buf: [0; OUT_MAX], len: 0 });
                    waiting.fetch_sub(1, SeqCst);
                    while waiting.load(SeqCst) > 0 {
                        std::hint::spin_loop();
                    }
                    for _ in 0..pause {
                        std::hint::spin_loop();
                    }
                    while !p.is_empty() {
                        let k = word(&mut p)?;
                        let c = p.get(..k)?;
                        p = &p[k..];
                        let at = out.len;
                        out.put(&[0, 0, ST_OK]);
                        let st = match catch_unwind(AssertUnwindSafe(|| m.exec(c, &mut out))) {
                            Ok(Some(())) => ST_OK,
                            Ok(None) => return None,
                            Err(_) => ST_PANIC,
                        };
                        if st != ST_OK {
                            out.len = at + 3;
                        }
                        let n = (out.len - at - 3) as u16;
                        out.buf[at..at + 2].copy_from_slice(&n.to_le_bytes());
                        out.buf[at + 2] = st;
                    }
                    Some(out.buf[..out.len].to_vec())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().ok()?).collect()
    });
    for r in res {
        let r = r?;
        out.put(&(r.len() as u16).to_le_bytes());
        out.put(&r);
    }
    Some(())
}
