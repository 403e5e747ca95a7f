//! Runtime for targets without std: raw Linux system calls, frame loop, panic recovery by stack reset.
use crate::machine::{Machine, Out, OUT_MAX};
use crate::proto::*;
use core::arch::{asm, global_asm};
use core::mem::MaybeUninit;
use core::ptr::{addr_of, addr_of_mut};

#[cfg(any(target_arch = "riscv32", target_arch = "riscv64", target_arch = "aarch64"))]
mod nr {
    pub const READ: usize = 63;
    pub const WRITE: usize = 64;
    pub const EXIT: usize = 93;
    pub const MPROTECT: usize = 226;
}
#[cfg(any(target_arch = "arm", target_arch = "x86", target_arch = "s390x", target_arch = "powerpc"))]
mod nr {
    pub const READ: usize = 3;
    pub const WRITE: usize = 4;
    pub const EXIT: usize = 1;
    pub const MPROTECT: usize = 125;
}
#[cfg(target_arch = "x86_64")]
mod nr {
    pub const READ: usize = 0;
    pub const WRITE: usize = 1;
    pub const EXIT: usize = 60;
    pub const MPROTECT: usize = 10;
}

#[cfg(target_arch = "x86_64")]
unsafe fn syscall(n: usize, a: usize, b: usize, c: usize) -> isize {
    let mut r = n;
    asm!("syscall", inlateout("rax") r, in("rdi") a, in("rsi") b, in("rdx") c, lateout("rcx") _, lateout("r11") _);
    r as isize
}
#[cfg(any(target_arch = "riscv32", target_arch = "riscv64"))]
unsafe fn syscall(n: usize, a: usize, b: usize, c: usize) -> isize {
    let mut r = a;
    asm!("ecall", in("a7") n, inlateout("a0") r, in("a1") b, in("a2") c);
    r as isize
}
#[cfg(target_arch = "aarch64")]
unsafe fn syscall(n: usize, a: usize, b: usize, c: usize) -> isize {
    let mut r = a;
    asm!("svc 0", in("x8") n, inlateout("x0") r, in("x1") b, in("x2") c);
    r as isize
}
#[cfg(target_arch = "arm")]
unsafe fn syscall(n: usize, a: usize, b: usize, c: usize) -> isize {
    let mut r = a;
    asm!("svc 0", in("r7") n, inlateout("r0") r, in("r1") b, in("r2") c);
    r as isize
}
#[cfg(target_arch = "x86")]
unsafe fn syscall(n: usize, a: usize, b: usize, c: usize) -> isize {
    let mut r = n;
    asm!("int 0x80", inlateout("eax") r, in("ebx") a, in("ecx") b, in("edx") c);
    r as isize
}
#[cfg(target_arch = "s390x")]
unsafe fn syscall(n: usize, a: usize, b: usize, c: usize) -> isize {
    let mut r = a;
    asm!("svc 0", in("r1") n, inlateout("r2") r, in("r3") b, in("r4") c);
    r as isize
}
#[cfg(target_arch = "powerpc")]
unsafe fn syscall(n: usize, a: usize, b: usize, c: usize) -> isize {
    let mut r = a;
    let mut e: usize;
    asm!("sc", "mfcr {e}", e = lateout(reg) e, inlateout("r0") n => _, inlateout("r3") r, inlateout("r4") b => _,
         inlateout("r5") c => _, lateout("r6") _, lateout("r7") _, lateout("r8") _, lateout("r9") _, lateout("r10") _,
         lateout("r11") _, lateout("r12") _, lateout("cr0") _, lateout("ctr") _);
    if e & (1 << 28) != 0 {
        return -(r as isize);
    }
    core::mem::forget(core::mem::replace(&mut e, 0));
    r as isize
}

#[cfg(any(target_arch = "riscv32", target_arch = "riscv64"))]
global_asm!(".globl _start", "_start: andi sp, sp, -16", "mv a0, sp", "call agent_main");
#[cfg(target_arch = "aarch64")]
global_asm!(".globl _start", "_start: mov x0, sp", "and x0, x0, #-16", "mov sp, x0", "b agent_main");
#[cfg(target_arch = "arm")]
global_asm!(".arm", ".globl _start", "_start: mov r0, sp", "bic r0, r0, #15", "mov sp, r0", "blx agent_main");
#[cfg(target_arch = "x86")]
global_asm!(".globl _start", "_start: and esp, -16", "mov eax, esp", "sub esp, 12", "push eax", "call agent_main");
#[cfg(target_arch = "x86_64")]
global_asm!(".globl _start", "_start: and rsp, -16", "mov rdi, rsp", "call agent_main");
#[cfg(target_arch = "s390x")]
global_asm!(".globl _start", "_start: aghi %r15, -160", "lgr %r2, %r15", "brasl %r14, agent_main");
#[cfg(target_arch = "powerpc")]
global_asm!(".globl _start", "_start: clrrwi 1, 1, 4", "mr 3, 1", "li 0, 0", "stwu 1, -32(1)", "stw 0, 0(1)", "bl agent_main");

/// Drops every stack frame and goes on with the next command.
unsafe fn restart(sp: usize) -> ! {
    #[cfg(any(target_arch = "riscv32", target_arch = "riscv64"))]
    asm!("mv sp, {0}", "call agent_loop", in(reg) sp, options(noreturn));
    #[cfg(target_arch = "aarch64")]
    asm!("mov sp, {0}", "b agent_loop", in(reg) sp, options(noreturn));
    #[cfg(target_arch = "arm")]
    asm!("mov sp, {0}", "blx agent_loop", in(reg) sp, options(noreturn));
    #[cfg(target_arch = "x86")]
    asm!("mov esp, {0}", "call agent_loop", in(reg) sp, options(noreturn));
    #[cfg(target_arch = "x86_64")]
    asm!("mov rsp, {0}", "call agent_loop", in(reg) sp, options(noreturn));
    #[cfg(target_arch = "s390x")]
    asm!("lgr %r15, {0}", "brasl %r14, agent_loop", in(reg) sp, options(noreturn));
    #[cfg(target_arch = "powerpc")]
    asm!("mr 1, {0}", "stwu 1, -32(1)", "bl agent_loop", in(reg) sp, options(noreturn));
}

const IN_MAX: usize = 1 << 17;

struct State {
    sp: usize,
    started: bool,
    len: usize,    // bytes of the current frame
    pos: usize,    // next command
    at: usize,     // reply header of the current command
    in_cmd: bool,
    input: [u8; IN_MAX],
}

static mut STATE: State = State { sp: 0, started: false, len: 0, pos: 0, at: 0, in_cmd: false, input: [0; IN_MAX] };
static mut OUT: Out = Out { buf: [0; OUT_MAX], len: 0 };
static mut MACHINE: MaybeUninit<Machine> = MaybeUninit::uninit();

unsafe fn exit(code: usize) -> ! {
    loop {
        syscall(nr::EXIT, code, 0, 0);
    }
}

unsafe fn read_all(buf: &mut [u8]) {
    let mut done = 0;
    while done < buf.len() {
        let n = syscall(nr::READ, 0, buf.as_mut_ptr() as usize + done, buf.len() - done);
        if n <= 0 {
            exit(if done == 0 { 0 } else { 71 });
        }
        done += n as usize;
    }
}

unsafe fn write_all(buf: &[u8]) {
    let mut done = 0;
    while done < buf.len() {
        let n = syscall(nr::WRITE, 1, buf.as_ptr() as usize + done, buf.len() - done);
        if n <= 0 {
            exit(72);
        }
        done += n as usize;
    }
}

#[no_mangle]
unsafe extern "C" fn agent_main(sp: usize) -> ! {
    (*addr_of_mut!(STATE)).sp = sp;
    for (a, n) in crate::guard_ranges() {
        if syscall(nr::MPROTECT, a, n, 0) != 0 {
            exit(70);
        }
    }
    (*addr_of_mut!(MACHINE)).write(Machine::new());
    restart(sp)
}

unsafe fn finish(st: u8) {
    let s = &mut *addr_of_mut!(STATE);
    let out = &mut *addr_of_mut!(OUT);
    if st != ST_OK {
        out.len = s.at + 3;
    }
    let n = (out.len - s.at - 3) as u16;
    out.buf[s.at..s.at + 2].copy_from_slice(&n.to_le_bytes());
    out.buf[s.at + 2] = st;
    s.in_cmd = false;
}

#[no_mangle]
unsafe extern "C" fn agent_loop() -> ! {
    let s = &mut *addr_of_mut!(STATE);
    let out = &mut *addr_of_mut!(OUT);
    let m = (*addr_of_mut!(MACHINE)).assume_init_mut();
    loop {
        if !s.started {
            let mut h = [0; 4];
            read_all(&mut h);
            s.len = u32::from_le_bytes(h) as usize;
            if s.len > IN_MAX {
                exit(73);
            }
            read_all(&mut s.input[..s.len]);
            s.pos = 0;
            out.len = 4;
            s.started = true;
        }
        while s.pos + 2 <= s.len {
            let n = u16::from_le_bytes([s.input[s.pos], s.input[s.pos + 1]]) as usize;
            let (a, b) = (s.pos + 2, s.pos + 2 + n);
            s.pos = b;
            s.at = out.len;
            out.put(&[0, 0, ST_OK]);
            s.in_cmd = true;
            let input = &*addr_of!((*addr_of!(STATE)).input);
            crate::agent_mark(1);
            let r = m.exec(&input[a..b], out);
            crate::agent_mark(2);
            finish(if r.is_some() { ST_OK } else { ST_BAD });
        }
        let n = (out.len - 4) as u32;
        out.buf[..4].copy_from_slice(&n.to_le_bytes());
        write_all(&out.buf[..out.len]);
        s.started = false;
    }
}

// referenced by the unwinding tables of core, never called: panics do not unwind here
#[no_mangle]
extern "C" fn rust_eh_personality() {}

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    unsafe {
        let s = &mut *addr_of_mut!(STATE);
        if !s.in_cmd {
            exit(74);
        }
        crate::agent_mark(2);
        finish(ST_PANIC);
        restart(s.sp)
    }
}
