#![cfg_attr(any(target_arch = "powerpc", target_arch = "powerpc64"), feature(asm_experimental_arch))]
#![cfg_attr(not(feature = "std"), no_std)]
#![cfg_attr(not(feature = "std"), no_main)]

mod machine;
mod proto;
#[cfg(not(feature = "std"))]
mod rt;
#[cfg(feature = "threads")]
mod threads;

use proto::REGION;

const PAGE: usize = 65536; // at least the page size everywhere

#[repr(C, align(65536))]
struct Arena([u8; PAGE * 3]);
static mut ARENA: Arena = Arena([0; PAGE * 3]);

// Two data areas share the middle page(s): one ends at the upper guard, one begins at the lower guard. A REGION of
// 4096 bytes that must touch both guards needs pages of 4096 bytes, so the guards are moved to wrap exactly one
// 4096-byte page where the host page size allows it (qemu-user and x86 do).
const LO: usize = PAGE;

pub fn region() -> &'static mut [u8] {
    unsafe { core::slice::from_raw_parts_mut(core::ptr::addr_of_mut!(ARENA).cast::<u8>().add(LO), REGION) }
}

fn guard_ranges() -> [(usize, usize); 2] {
    let base = core::ptr::addr_of!(ARENA) as usize;
    [(base + LO - 4096, 4096), (base + LO + REGION, 4096)]
}

/// A lazily mapped area for slices longer than the program's own memory; none without an operating system to ask, in a
/// 32-bit address space, or where the system refuses.
#[cfg(all(feature = "std", target_pointer_width = "64"))]
pub fn huge_area(len: u64) -> Option<&'static mut [u8]> {
    const SIZE: usize = (1 << 33) + (1 << 20);
    static AREA: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    extern "C" {
        fn mmap(addr: *mut core::ffi::c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut core::ffi::c_void;
    }
    if cfg!(miri) || len > SIZE as u64 {
        return None;
    }
    // readable and writable, private, anonymous, without reserved memory
    let at = *AREA.get_or_init(|| unsafe { mmap(core::ptr::null_mut(), SIZE, 3, 0x4022, -1, 0) as usize });
    (at != usize::MAX).then(|| unsafe { core::slice::from_raw_parts_mut(at as *mut u8, len as usize) })
}
#[cfg(not(all(feature = "std", target_pointer_width = "64")))]
pub fn huge_area(_: u64) -> Option<&'static mut [u8]> {
    None
}

/// Called right before and right after every command: the tracer's marks.
#[no_mangle]
#[inline(never)]
pub extern "C" fn agent_mark(x: usize) -> usize {
    core::hint::black_box(x)
}

#[cfg(feature = "std")]
mod host {
    use crate::machine::{Machine, Out, OUT_MAX};
    use crate::proto::*;
    use std::io::{Read, Write};
    use std::panic::{catch_unwind, AssertUnwindSafe};

    extern "C" {
        fn mprotect(addr: *mut core::ffi::c_void, len: usize, prot: i32) -> i32;
    }

    pub fn main() {
        if !cfg!(miri) {
            for (a, n) in crate::guard_ranges() {
                if unsafe { mprotect(a as *mut _, n, 0) } != 0 {
                    eprintln!("agent: mprotect failed");
                    std::process::exit(70);
                }
            }
        }
        std::panic::set_hook(Box::new(|_| {}));
        let mut m = Machine::new();
        let mut out = Box::new(Out { buf: [0; OUT_MAX], len: 0 });
        let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
        loop {
            let mut h = [0; 4];
            if i.read_exact(&mut h).is_err() {
                return;
            }
            let mut frame = vec![0; u32::from_le_bytes(h) as usize];
            i.read_exact(&mut frame).unwrap();
            out.len = 4;
            let mut p = &frame[..];
            while p.len() >= 2 {
                let n = u16::from_le_bytes([p[0], p[1]]) as usize;
                let cmd = &p[2..2 + n];
                p = &p[2 + n..];
                let at = out.len;
                out.put(&[0, 0, ST_OK]);
                crate::agent_mark(1);
                let r = catch_unwind(AssertUnwindSafe(|| m.exec(cmd, &mut out)));
                crate::agent_mark(2);
                let st = match r {
                    Ok(Some(())) => ST_OK,
                    Ok(None) => ST_BAD,
                    Err(_) => ST_PANIC,
                };
                if st != ST_OK {
                    out.len = at + 3;
                }
                let n = (out.len - at - 3) as u16;
                out.buf[at..at + 2].copy_from_slice(&n.to_le_bytes());
                out.buf[at + 2] = st;
            }
            let n = (out.len - 4) as u32;
            out.buf[..4].copy_from_slice(&n.to_le_bytes());
            o.write_all(&out.buf[..out.len]).unwrap();
            o.flush().unwrap();
        }
    }
}

#[cfg(feature = "std")]
fn main() {
    host::main()
}
