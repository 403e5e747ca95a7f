//! Instruction and address traces of an agent's commands, and what C17 and C21 ask of them.
//!
//! A native agent runs under ptrace, one instruction at a time; another one under qemu, which reports every register
//! before every instruction. From the registers and a table of memory operands (vlib/disasm.py) follow the addresses.
use crate::gadget::Gadget;
use crate::gen::{rand::Rng, Gen};
use crate::op::{Hx, Op};
use crate::proto::*;
use crate::shrink::Program;
use serde::Deserialize;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_long, c_uint, c_ulong, c_void, CString};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};

#[derive(Clone, Debug, Deserialize)]
pub struct TraceInfo {
    /// x86, a64, arm, rv, ppc, s390
    pub arch: String,
    pub table: String,
    /// no secret may influence the trace
    pub constant: bool,
    /// for 1, 2 and 4 blocks: the class of AES instructions that must do the rounds (0: none required)
    pub aes: [u8; 3],
    /// the instrumented configuration whose kept programs are traced as well
    #[serde(default)]
    pub seeds: String,
    /// bit mask of the classes of AES instructions the target features permit
    #[serde(default = "all")]
    pub allowed: u8,
}

fn all() -> u8 {
    0xff
}

#[derive(Clone, Debug, Default)]
struct Insn {
    cond: u8,
    ops: Vec<(i32, i32, u8, u8, i64, u8)>, // base, index, ext, shift, disp, bits
    class: u8,
    units: u32,
}

pub struct Table {
    mark: u64,
    lo: u64,
    /// index + 1 into insns, by address
    at: Vec<u32>,
    insns: Vec<Insn>,
    funcs: Vec<(u64, String)>,
}

impl Table {
    pub fn load(path: &str) -> Result<Table, String> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let (mut mark, mut all, mut funcs) = (0, HashMap::<u64, Insn>::new(), vec![]);
        for line in text.lines() {
            let mut f = line.split(' ');
            let kind = f.next().unwrap_or("");
            let addr = u64::from_str_radix(f.next().unwrap_or("0"), 16).map_err(|e| format!("{line}: {e}"))?;
            match kind {
                "M" => mark = addr,
                "F" => funcs.push((addr, f.collect::<Vec<_>>().join(" "))),
                "A" => {
                    let e = all.entry(addr).or_insert_with(|| Insn { cond: 14, ..Default::default() });
                    e.class = f.next().unwrap().parse().unwrap();
                    e.units = f.next().unwrap().parse().unwrap();
                }
                "I" => {
                    let e = all.entry(addr).or_default();
                    e.cond = f.next().unwrap().parse().unwrap();
                    for o in f {
                        let v: Vec<i64> = o.split(':').map(|x| x.parse::<i128>().unwrap() as i64).collect();
                        e.ops.push((v[0] as i32, v[1] as i32, v[2] as u8, v[3] as u8, v[4], v[5] as u8));
                    }
                }
                _ => return Err(format!("{path}: {line}")),
            }
        }
        let lo = all.keys().min().copied().unwrap_or(0);
        let hi = all.keys().max().copied().unwrap_or(0);
        let mut t = Table { mark, lo, at: vec![0; (hi - lo + 1) as usize], insns: vec![], funcs };
        for (a, i) in all {
            t.insns.push(i);
            t.at[(a - lo) as usize] = t.insns.len() as u32;
        }
        t.funcs.sort();
        Ok(t)
    }
    fn get(&self, pc: u64) -> Option<&Insn> {
        let i = *self.at.get(pc.wrapping_sub(self.lo) as usize)?;
        (i > 0).then(|| &self.insns[i as usize - 1])
    }
    pub fn place(&self, pc: u64) -> String {
        match self.funcs.partition_point(|f| f.0 <= pc) {
            0 => format!("{pc:#x}"),
            i => format!("{}+{:#x}", self.funcs[i - 1].1, pc - self.funcs[i - 1].0),
        }
    }
}

/// What one command did between its marks.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct OpTrace {
    pub hash: u64,
    /// of the instructions alone
    pub path: u64,
    pub len: u32,
    pub units: [u32; 8],
    /// (pc, addresses) of every instruction, only if asked for
    pub full: Vec<(u64, Vec<u64>)>,
}

impl OpTrace {
    fn mix(&mut self, x: u64) {
        let h = (self.hash.rotate_left(29) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.hash = h ^ (h >> 31);
    }
    fn step(&mut self, t: &Table, pc: u64, sp: u64, regs: &[u64], flags: u64, full: bool, vector: &mut dyn FnMut(i32) -> u64) {
        self.len += 1;
        self.mix(pc);
        self.mix(sp);
        self.path = (self.path.rotate_left(29) ^ pc).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.path ^= self.path >> 31;
        let mut addrs = vec![];
        if let Some(i) = t.get(pc) {
            if i.class > 0 {
                self.units[i.class as usize] += i.units;
            }
            if i.cond == 14 || arm_cond(i.cond, flags) {
                for &(b, x, ext, sh, disp, bits) in &i.ops {
                    let base = if b < 0 { 0 } else { regs[b as usize] };
                    let index = match (x < 0, ext) {
                        (true, _) => 0,
                        (_, 1) => regs[x as usize] & 0xffff_ffff,
                        (_, 2) => regs[x as usize] as u32 as i32 as i64 as u64,
                        (_, 3) => vector(x),
                        _ => regs[x as usize],
                    };
                    let mut a = base.wrapping_add(index << sh).wrapping_add(disp as u64);
                    if bits == 32 {
                        a &= 0xffff_ffff;
                    }
                    self.mix(a);
                    if full {
                        addrs.push(a);
                    }
                }
            }
        }
        if full {
            self.full.push((pc, addrs));
        }
    }
}

fn arm_cond(c: u8, psr: u64) -> bool {
    let (n, z, cc, v) = (psr >> 31 & 1 == 1, psr >> 30 & 1 == 1, psr >> 29 & 1 == 1, psr >> 28 & 1 == 1);
    let r = match c >> 1 {
        0 => z,
        1 => cc,
        2 => n,
        3 => v,
        4 => cc && !z,
        5 => n == v,
        6 => n == v && !z,
        _ => return true,
    };
    r ^ (c & 1 == 1)
}

/// Commands whose traces count.
pub fn selected(o: &Op) -> bool {
    match o {
        Op::Key { .. } | Op::Switch { .. } | Op::Crypt { .. } | Op::Chain { .. } => true,
        Op::Bin { op, .. } => *op >= BI_ENC,
        Op::Un { op, .. } => *op == UN_MC || *op == UN_IMC,
        _ => false,
    }
}

// ------------------------------------------------------------------------------------------------ running

extern "C" {
    fn ptrace(request: c_long, pid: c_int, addr: *mut c_void, data: *mut c_void) -> c_long;
    fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    fn personality(persona: c_ulong) -> c_int;
    fn sched_getaffinity(pid: c_int, size: usize, mask: *mut u64) -> c_int;
    fn sched_setaffinity(pid: c_int, size: usize, mask: *const u64) -> c_int;
    fn mkfifo(path: *const c_char, mode: c_uint) -> c_int;
}
const ADDR_NO_RANDOMIZE: c_ulong = 0x0040000;
const PTRACE_TRACEME: c_long = 0;
const PTRACE_POKETEXT: c_long = 4;
const PTRACE_PEEKTEXT: c_long = 1;
const PTRACE_CONT: c_long = 7;
const PTRACE_KILL: c_long = 8;
const PTRACE_SINGLESTEP: c_long = 9;
const PTRACE_GETREGS: c_long = 12;
const PTRACE_SETREGS: c_long = 13;
const PTRACE_GETREGSET: c_long = 0x4204;

pub struct Target<'a> {
    pub cmd: &'a [String],
    pub info: &'a TraceInfo,
    pub table: &'a Table,
    pub scratch: &'a str,
}

/// Which command's instructions are kept in full.
pub type Full = Option<(usize, usize)>;

/// Runs the programs one after the other in one fresh process; per program and command the trace (empty if not selected).
pub fn run(t: &Target, ps: &[Vec<Op>], full: Full) -> Result<Vec<Vec<OpTrace>>, String> {
    if t.cmd.len() == 1 {
        native(t, ps, full)
    } else {
        emulated(t, ps, full)
    }
}

fn frame(p: &[Op]) -> Vec<u8> {
    let mut f = vec![0; 4];
    for o in p {
        o.encode(&mut f);
    }
    let n = (f.len() - 4) as u32;
    f[..4].copy_from_slice(&n.to_le_bytes());
    f
}

/// The answers: every command must have been well-formed.
fn check_answers(bytes: &[u8], ps: &[Vec<Op>]) -> Result<(), String> {
    let mut b = bytes;
    for p in ps {
        b = b.get(4..).ok_or("missing answer")?;
        for o in p {
            let n = u16::from_le_bytes([*b.first().ok_or("short answer")?, *b.get(1).ok_or("short answer")?]) as usize;
            if *b.get(2).ok_or("short answer")? == ST_BAD {
                return Err(format!("malformed command {o:?}"));
            }
            b = b.get(3 + n..).ok_or("short answer")?;
        }
    }
    Ok(())
}

pub fn cpus() -> Vec<usize> {
    let mut m = [0u64; 16];
    if unsafe { sched_getaffinity(0, 128, m.as_mut_ptr()) } < 0 {
        return vec![];
    }
    (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect()
}

/// Binds the calling thread, and what it starts, to some processors.
pub fn pin(cpus: &[usize]) {
    let mut m = [0u64; 16];
    for c in cpus {
        m[c / 64] |= 1 << (c % 64);
    }
    unsafe { sched_setaffinity(0, 128, m.as_ptr()) };
}

fn command(t: &Target) -> Command {
    let mut c = Command::new(&t.cmd[0]);
    c.env_clear().env("LD_BIND_NOW", "1");
    c.current_dir("/");
    c
}

struct Traced {
    pid: c_int,
    child: std::process::Child,
}
impl Drop for Traced {
    fn drop(&mut self) {
        unsafe { ptrace(PTRACE_KILL, self.pid, std::ptr::null_mut(), std::ptr::null_mut()) };
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn stop(pid: c_int) -> Result<c_int, String> {
    let mut st = 0;
    if unsafe { waitpid(pid, &mut st, 0x4000_0000) } != pid {
        return Err("waitpid failed".into());
    }
    if st & 0x7f == 0 {
        return Err(format!("the agent exited with {}", st >> 8 & 0xff));
    }
    if st & 0xff != 0x7f {
        return Err(format!("the agent died of signal {}", st & 0x7f));
    }
    match st >> 8 & 0xff {
        5 => Ok(5),
        n => Err(format!("the agent received signal {n}")),
    }
}

fn native(t: &Target, ps: &[Vec<Op>], full: Full) -> Result<Vec<Vec<OpTrace>>, String> {
    let mut cmd = command(t);
    cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            personality(ADDR_NO_RANDOMIZE);
            if ptrace(PTRACE_TRACEME, 0, std::ptr::null_mut(), std::ptr::null_mut()) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let child = cmd.spawn().map_err(|e| format!("cannot trace {}: {e}", t.cmd[0]))?;
    let mut c = Traced { pid: child.id() as c_int, child };
    let pid = c.pid;
    let mut tx = c.child.stdin.take().unwrap();
    let mut rx = c.child.stdout.take().unwrap();
    let answers = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = rx.read_to_end(&mut v);
        v
    });
    stop(pid)?;
    let is32 = t.info.arch == "i386";
    let null = std::ptr::null_mut::<c_void>();
    let at = t.table.mark as *mut c_void;
    unsafe {
        let w = ptrace(PTRACE_PEEKTEXT, pid, at, null);
        if ptrace(PTRACE_POKETEXT, pid, at, ((w & !0xff) | 0xcc) as *mut c_void) != 0 {
            return Err("cannot set the breakpoint".into());
        }
    }
    let mut r = [0u64; 27];
    let get = |r: &mut [u64; 27]| -> Result<(), String> {
        match unsafe { ptrace(PTRACE_GETREGS, pid, null, r.as_mut_ptr().cast()) } {
            0 => Ok(()),
            _ => Err("cannot read registers".into()),
        }
    };
    // returns from the mark function without executing it; answers its argument
    let leave = |r: &mut [u64; 27]| -> Result<u64, String> {
        let sp = r[19];
        let w = unsafe { ptrace(PTRACE_PEEKTEXT, pid, sp as *mut c_void, null) } as u64;
        let x = if is32 {
            r[16] = w & 0xffff_ffff;
            r[19] = sp + 4;
            w >> 32
        } else {
            r[16] = w;
            r[19] = sp + 8;
            r[14]
        };
        r[10] = x;
        r[15] = u64::MAX; // no system call to restart
        match unsafe { ptrace(PTRACE_SETREGS, pid, null, r.as_mut_ptr().cast()) } {
            0 => Ok(x),
            _ => Err("cannot write registers".into()),
        }
    };
    let go = |how: c_long| unsafe { ptrace(how, pid, null, null) };
    let mut out = vec![];
    for (pi, p) in ps.iter().enumerate() {
        tx.write_all(&frame(p)).and_then(|_| tx.flush()).map_err(|e| e.to_string())?;
        let mut res = vec![];
        for (oi, o) in p.iter().enumerate() {
            go(PTRACE_CONT);
            stop(pid)?;
            get(&mut r)?;
            if r[16] != t.table.mark + 1 {
                return Err(format!("stopped at {:#x}", r[16]));
            }
            if leave(&mut r)? != 1 {
                return Err("marks out of order".into());
            }
            let mut tr = OpTrace::default();
            if selected(o) {
                let keep = full == Some((pi, oi));
                get(&mut r)?;
                while r[16] != t.table.mark {
                    // rax rbx rcx rdx rsi rdi rbp rsp r8..r15
                    let regs = [r[10], r[5], r[11], r[12], r[13], r[14], r[4], r[19], r[9], r[8], r[7], r[6], r[3], r[2], r[1], r[0]];
                    tr.step(t.table, r[16], r[19], &regs, 0, keep, &mut |x| vector(pid, x));
                    if tr.len > 50_000_000 {
                        return Err("a command does not end".into());
                    }
                    go(PTRACE_SINGLESTEP);
                    stop(pid)?;
                    get(&mut r)?;
                }
            } else {
                go(PTRACE_CONT);
                stop(pid)?;
                get(&mut r)?;
                if r[16] != t.table.mark + 1 {
                    return Err(format!("stopped at {:#x}", r[16]));
                }
            }
            if leave(&mut r)? != 2 {
                return Err("marks out of order".into());
            }
            res.push(tr);
        }
        out.push(res);
    }
    drop(tx);
    go(PTRACE_CONT);
    // let it write its last answer and exit
    let mut st = 0;
    unsafe { waitpid(pid, &mut st, 0x4000_0000) };
    drop(c);
    check_answers(&answers.join().unwrap_or_default(), ps)?;
    Ok(out)
}

/// A digest of a vector register used as an index.
fn vector(pid: c_int, x: i32) -> u64 {
    #[cfg(target_arch = "x86_64")]
    {
        let mut buf = vec![0u8; 8192];
        let mut iov = [buf.as_mut_ptr() as usize, buf.len()];
        unsafe { ptrace(PTRACE_GETREGSET, pid, 0x202 as *mut c_void, iov.as_mut_ptr().cast()) };
        let off = |c: u32| core::arch::x86_64::__cpuid_count(0xD, c).ebx as usize;
        let x = x as usize;
        let mut h = 0u64;
        let mut add = |at: usize, n: usize| {
            for b in &buf[at.min(8192 - n)..at.min(8192 - n) + n] {
                h = (h.rotate_left(9) ^ *b as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            }
        };
        if x < 16 {
            add(160 + 16 * x, 16);
            add(off(2) + 16 * x, 16);
        } else {
            add(off(7) + 64 * (x - 16), 64);
        }
        h
    }
    #[cfg(not(target_arch = "x86_64"))]
    {
        let _ = (pid, x);
        0
    }
}

fn hexat(b: &[u8]) -> u64 {
    let mut v = 0u64;
    for c in b {
        match (*c as char).to_digit(16) {
            Some(d) => v = v << 4 | d as u64,
            None => break,
        }
    }
    v
}

/// pc, sp, flags and numbered registers of one report of qemu.
struct Dump {
    pc: u64,
    flags: u64,
    regs: [u64; 32],
}

fn starts(arch: &str, line: &[u8]) -> bool {
    match arch {
        "a64" => line.starts_with(b" PC="),
        "arm" => line.starts_with(b"R00="),
        "rv" => line.starts_with(b" pc "),
        "ppc" => line.starts_with(b"NIP "),
        "x86" => line.starts_with(b"RAX="),
        "i386" => line.starts_with(b"EAX="),
        _ => line.starts_with(b"PSW="),
    }
}

fn parse(arch: &str, d: &mut Dump, line: &[u8]) {
    let words = || line.split(|c| *c == b' ').filter(|w| !w.is_empty());
    match arch {
        "a64" | "arm" => {
            for w in words() {
                if w.len() < 4 {
                    continue;
                }
                if w[0] == b'X' || w[0] == b'R' {
                    let n = (w[1].wrapping_sub(b'0') as usize) * 10 + w[2].wrapping_sub(b'0') as usize;
                    if n < 32 && w[3] == b'=' {
                        d.regs[n] = hexat(&w[4..]);
                        if arch == "arm" && n == 15 {
                            d.pc = d.regs[15];
                        }
                    }
                } else if w.starts_with(b"PC=") {
                    d.pc = hexat(&w[3..]);
                } else if w.starts_with(b"SP=") {
                    d.regs[31] = hexat(&w[3..]);
                } else if w.starts_with(b"PSR=") {
                    d.flags = hexat(&w[4..]);
                }
            }
        }
        "x86" | "i386" => {
            // RAX=..., R8 =..., EIP=...; the numbering of the table
            const NAMES: [&[u8]; 8] = [b"AX", b"BX", b"CX", b"DX", b"SI", b"DI", b"BP", b"SP"];
            if !matches!(line.first(), Some(b'R' | b'E')) || line.starts_with(b"EFER") {
                return;
            }
            let mut rest = line;
            while let Some(eq) = rest.iter().position(|c| *c == b'=') {
                let name: &[u8] = &rest[eq.saturating_sub(3)..eq];
                let value = hexat(&rest[eq + 1..]);
                if name.len() == 3 {
                    let key = &name[1..];
                    if let Some(i) = NAMES.iter().position(|n| *n == key) {
                        d.regs[i] = value;
                    } else if key == b"IP" {
                        d.pc = value;
                    } else if name[0] == b'R' && name[1].is_ascii_digit() {
                        let n = if name[2] == b' ' { (name[1] - b'0') as usize } else { 10 * (name[1] - b'0') as usize + name[2].wrapping_sub(b'0') as usize };
                        if n < 32 {
                            d.regs[n] = value;
                        }
                    }
                }
                rest = &rest[eq + 1..];
            }
        }
        "rv" => {
            let mut it = words();
            while let (Some(k), Some(v)) = (it.next(), it.next()) {
                if k == b"pc" {
                    d.pc = hexat(v);
                } else if k[0] == b'x' {
                    let n: usize = k[1..].iter().take_while(|c| c.is_ascii_digit()).fold(0, |a, c| a * 10 + (c - b'0') as usize);
                    if n < 32 {
                        d.regs[n] = hexat(v);
                    }
                }
            }
        }
        "ppc" => {
            let mut it = words();
            match it.next() {
                Some(b"NIP") => d.pc = hexat(it.next().unwrap_or(b"")),
                Some(k) if k.starts_with(b"GPR") => {
                    let n = k[3..].iter().fold(0, |a, c| a * 10 + c.wrapping_sub(b'0') as usize);
                    for (i, v) in it.take(4).enumerate() {
                        if n + i < 32 {
                            d.regs[n + i] = hexat(v) & 0xffff_ffff;
                        }
                    }
                }
                _ => {}
            }
        }
        _ => {
            if line.starts_with(b"PSW=") {
                let mut it = words().skip_while(|w| *w != b"addr");
                it.next();
                d.pc = hexat(it.next().unwrap_or(b""));
            } else {
                for w in words() {
                    if w.len() > 4 && w[0] == b'R' && w[3] == b'=' {
                        let n = (w[1].wrapping_sub(b'0') as usize) * 10 + w[2].wrapping_sub(b'0') as usize;
                        if n < 16 {
                            d.regs[n] = hexat(&w[4..]);
                        }
                    }
                }
            }
        }
    }
}

fn emulated(t: &Target, ps: &[Vec<Op>], full: Full) -> Result<Vec<Vec<OpTrace>>, String> {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let arch = t.info.arch.as_str();
    let fifo = format!("{}/trace-{}-{}", t.scratch, std::process::id(), N.fetch_add(1, Ordering::SeqCst));
    let cpath = CString::new(fifo.clone()).unwrap();
    if unsafe { mkfifo(cpath.as_ptr(), 0o600) } != 0 {
        return Err("mkfifo failed".into());
    }
    struct Rm(String);
    impl Drop for Rm {
        fn drop(&mut self) {
            let _ = std::fs::remove_file(&self.0);
        }
    }
    let _rm = Rm(fifo.clone());
    let mut cmd = command(t);
    cmd.args(["-one-insn-per-tb", "-d", "cpu,nochain", "-D", &fifo]).args(&t.cmd[1..]);
    cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            personality(ADDR_NO_RANDOMIZE);
            Ok(())
        });
    }
    // opened for reading and writing: never blocks, whatever qemu does
    let hold = std::fs::OpenOptions::new().read(true).write(true).open(&fifo).map_err(|e| e.to_string())?;
    let log = std::fs::File::open(&fifo).map_err(|e| e.to_string())?;
    let mut child = cmd.spawn().map_err(|e| format!("cannot start {:?}: {e}", t.cmd))?;
    let mut tx = child.stdin.take().unwrap();
    let mut rx = child.stdout.take().unwrap();
    let frames: Vec<u8> = ps.iter().flat_map(|p| frame(p)).collect();
    let feeder = std::thread::spawn(move || {
        let _ = tx.write_all(&frames);
    });
    let answers = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = rx.read_to_end(&mut v);
        v
    });
    // the log ends when the emulator does: then the last writer is the one held here
    let ender = std::thread::spawn(move || {
        let st = child.wait();
        drop(hold);
        st
    });
    let order: Vec<(usize, usize)> = ps.iter().enumerate().flat_map(|(i, p)| (0..p.len()).map(move |j| (i, j))).collect();
    let mut out: Vec<Vec<OpTrace>> = ps.iter().map(|p| vec![OpTrace::default(); p.len()]).collect();
    let (sp, arg) = match arch {
        "a64" => (31, 0),
        "arm" => (13, 0),
        "rv" => (2, 10),
        "ppc" => (1, 3),
        "x86" => (7, 5),
        "i386" => (7, 0),
        _ => (15, 2),
    };
    let mut k = 0; // commands finished
    let mut inside = false;
    let mut error = None;
    let mut step = |d: &Dump| {
        if error.is_some() {
            return;
        }
        if d.pc == t.table.mark {
            // i386 passes the argument on the stack, which is not reported
            let x = if arch == "i386" { 1 + inside as u64 } else { d.regs[arg] };
            match (x, inside) {
                (1, false) if k < order.len() => inside = true,
                (2, true) => {
                    inside = false;
                    k += 1;
                }
                (x, _) => error = Some(format!("marks out of order ({x})")),
            }
        } else if inside {
            let (i, j) = order[k];
            if selected(&ps[i][j]) {
                out[i][j].step(t.table, d.pc, d.regs[sp], &d.regs, d.flags, full == Some((i, j)), &mut |_| 0);
            }
        }
    };
    let mut rd = BufReader::with_capacity(1 << 20, log);
    let mut line = vec![];
    let mut d = Dump { pc: 0, flags: 0, regs: [0; 32] };
    let mut have = false;
    loop {
        line.clear();
        match rd.read_until(b'\n', &mut line) {
            Ok(0) | Err(_) => break,
            Ok(_) => {}
        }
        if line.last() == Some(&b'\n') {
            line.pop();
        }
        if starts(arch, &line) {
            if have {
                step(&d);
            }
            have = true;
        }
        parse(arch, &mut d, &line);
    }
    if have {
        step(&d);
    }
    let _ = feeder.join();
    let st = ender.join();
    let ans = answers.join().unwrap_or_default();
    if let Some(e) = error {
        return Err(e);
    }
    if k != order.len() {
        return Err(format!("{k} of {} commands ran ({st:?})", order.len()));
    }
    check_answers(&ans, ps)?;
    Ok(out)
}

// ------------------------------------------------------------------------------------------------ programs

/// The public part of a stretch of commands; the secrets are filled in separately.
#[derive(Clone, Debug)]
pub enum Unit {
    Cipher { size: u8, role: u8, switched: bool, again: bool, slot: u8, uses: Vec<(u8, u8)> },
    Round { w: u8, op: u8 },
    Mix { op: u8 },
    Chain { w: u8, dir: u8, len: usize },
}

pub fn shape(g: &mut Gen, n: usize, crypt_only: bool) -> Vec<Unit> {
    let width = |g: &mut Gen| [1u8, 1, 1, 2, 4][g.r.below(5)];
    (0..n)
        .map(|_| match if crypt_only { 0 } else { g.r.below(10) } {
            0..=4 => {
                let k = if g.r.pct(30) { 2 } else { 1 };
                let uses = (0..k).map(|_| (width(g), g.r.below(2) as u8)).collect();
                Unit::Cipher { size: g.r.below(3) as u8, role: g.r.below(2) as u8, switched: g.r.pct(35), again: g.r.pct(15), slot: g.r.below(2) as u8, uses }
            }
            5 | 6 => Unit::Round { w: width(g), op: BI_ENC + g.r.below(4) as u8 },
            7 => Unit::Mix { op: UN_MC + g.r.below(2) as u8 },
            _ => Unit::Chain { w: width(g), dir: g.r.below(2) as u8, len: if g.r.pct(80) { g.r.range(1, 5) } else { g.r.range(6, 16) } },
        })
        .collect()
}

pub fn fill(units: &[Unit], g: &mut Gen) -> Vec<Op> {
    let mut v = vec![Op::Reset];
    let load = |v: &mut Vec<Op>, w: u8, dst: u8, data: Vec<u8>| v.push(Op::Load { w, dst, kind: LK_NEW, align: 0, data: Hx(data) });
    for u in units {
        match u {
            Unit::Cipher { size, role, switched, again, slot, uses } => {
                let (size, slot) = (*size, *slot);
                let mut role = *role;
                let key = g.key(size);
                v.push(Op::Key { size, role, slot, key: Hx(key.clone()) });
                if *switched {
                    v.push(Op::Switch { size, role, slot, dst: slot });
                    role = 1 - role;
                    if *again {
                        v.push(Op::Switch { size, role, slot, dst: slot });
                        role = 1 - role;
                    }
                }
                for &(w, fresh) in uses {
                    let mut data = vec![];
                    for _ in 0..w {
                        data.extend(if fresh == 0 { g.block_for(&key, role == 1) } else { g.value(16) });
                    }
                    load(&mut v, w, 0, data);
                    v.push(Op::Crypt { size, role, slot, w, dst: 1, src: 0 });
                }
            }
            Unit::Round { w, op } => {
                let n = 16 * *w as usize;
                let a = g.value(n);
                let b = if g.r.pct(15) { a.clone() } else { g.value(n) };
                load(&mut v, *w, 0, a);
                load(&mut v, *w, 1, b);
                v.push(Op::Bin { w: *w, dst: 2, a: 0, b: 1, op: *op });
            }
            Unit::Mix { op } => {
                let a = g.value(16);
                load(&mut v, 1, 0, a);
                v.push(Op::Un { w: 1, dst: 1, src: 0, op: *op });
            }
            Unit::Chain { w, dir, len } => {
                let s = g.value(16 * *w as usize);
                let keys = g.chain_keys(*dir, &s, *len);
                load(&mut v, *w, 0, s);
                v.push(Op::Chain { w: *w, dst: 1, src: 0, dir: *dir, keys: Hx(keys) });
            }
        }
    }
    v
}

/// The commands of situations, without those that are not about secrets; and the same with random secrets.
pub fn pair_of(p: &Program, g: &mut Gen) -> (Vec<Op>, Vec<Op>) {
    let mut a = vec![Op::Reset];
    for x in p {
        a.extend(x.expand().0.into_iter().filter(|o| match o {
            Op::Load { .. } | Op::CloneKey { .. } => true,
            Op::Chain { keys, .. } => !keys.0.is_empty(),
            _ => selected(o),
        }));
    }
    let b = a
        .iter()
        .map(|o| {
            let mut x = Gadget::Raw(o.clone());
            for d in x.datas() {
                g.r.fill(&mut d.0);
            }
            match x {
                Gadget::Raw(o) => o,
                _ => unreachable!(),
            }
        })
        .collect();
    (a, b)
}

pub fn rounds(size: u8) -> u32 {
    10 + 2 * size as u32
}

const AES_NAMES: [&str; 7] = ["", "128-bit aesenc/aesdec", "256-bit vaesenc/vaesdec", "512-bit vaesenc/vaesdec", "aese/aesd", "aes64*", "aes32*"];

/// Does this command use the required AES instructions enough?
pub fn aes_ok(info: &TraceInfo, o: &Op, t: &OpTrace) -> Result<(), String> {
    if let Some(c) = (1..=6).find(|c| t.units[*c] > 0 && info.allowed >> c & 1 == 0) {
        return Err(format!("{o:?}: executed {}, which the target features do not include", AES_NAMES[c]));
    }
    let Op::Crypt { size, w, .. } = o else { return Ok(()) };
    let need = info.aes[match w {
        1 => 0,
        2 => 1,
        _ => 2,
    }];
    if need == 0 {
        return Ok(());
    }
    let have: u32 = if need <= 3 { (need..=3).map(|c| t.units[c as usize]).sum() } else { t.units[need as usize] };
    let want = 16 * *w as u32 * (rounds(*size) - 1);
    if have >= want {
        return Ok(());
    }
    Err(format!("{o:?}: {} instructions did {have} byte-rounds, at least {want} expected ({} instructions executed, by class {:?})", AES_NAMES[need as usize], t.len, t.units))
}

/// Do two traces of one command show a dependence on secrets? With `lookups`, only other addresses at the same instructions count.
pub fn differs(lookups: bool, s: &OpTrace, r: &OpTrace) -> bool {
    if lookups {
        s.len == r.len && s.path == r.path && s.hash != r.hash
    } else {
        s.hash != r.hash || s.len != r.len
    }
}

/// First command in which the traces of two programs of the same shape differ.
pub fn difference(t: &Target, lookups: bool, a: &[Vec<Op>], b: &[Vec<Op>]) -> Result<Option<String>, String> {
    let (x, y) = (run(t, a, None)?, run(t, b, None)?);
    for (i, (p, q)) in x.iter().zip(&y).enumerate() {
        for (j, (s, r)) in p.iter().zip(q).enumerate() {
            if !differs(lookups, s, r) {
                continue;
            }
            if run(t, a, None)? != x {
                return Err("the trace of one and the same run is not stable".into());
            }
            let (x, y) = (run(t, a, Some((i, j)))?, run(t, b, Some((i, j)))?);
            let (s, r) = (&x[i][j].full, &y[i][j].full);
            let at = s.iter().zip(r).position(|(m, n)| m != n).unwrap_or(s.len().min(r.len()));
            let show = |v: &[(u64, Vec<u64>)]| match v.get(at) {
                Some((pc, addrs)) => format!("{} with addresses {addrs:x?}", t.table.place(*pc)),
                None => "the end".into(),
            };
            let before = at.checked_sub(1).and_then(|k| s.get(k)).map(|(pc, _)| t.table.place(*pc)).unwrap_or_default();
            return Ok(Some(format!(
                "{} depends on secret contents: after {at} equal instructions (the last at {before}) one run is at {} and the other at {}; {:?} vs {:?}",
                a[i][j].name(), show(s), show(r), a[i][j], b[i][j]
            )));
        }
    }
    Ok(None)
}

pub fn to_gadgets(p: &[Op]) -> Program {
    p.iter().map(|o| Gadget::Raw(o.clone())).collect()
}
pub fn to_ops(p: &Program) -> Vec<Op> {
    p.iter()
        .filter_map(|g| match g {
            Gadget::Raw(o) => Some(o.clone()),
            _ => None,
        })
        .collect()
}

/// Smaller pairs of the same shape that still differ.
pub fn shrink_pair(a: Vec<Op>, b: Vec<Op>, limit: std::time::Duration, mut bad: impl FnMut(&[Op], &[Op]) -> Option<String>) -> (Vec<Op>, Vec<Op>, Option<String>) {
    let t0 = std::time::Instant::now();
    let (mut a, mut b, mut detail) = (a, b, None);
    let mut size = a.len();
    while size > 0 && t0.elapsed() < limit {
        let mut at = 0;
        while at < a.len() && t0.elapsed() < limit {
            let end = (at + size).min(a.len());
            let cut = |v: &[Op]| [&v[..at], &v[end..]].concat();
            let (x, y) = (cut(&a), cut(&b));
            match if x.is_empty() { None } else { bad(&x, &y) } {
                Some(d) => {
                    a = x;
                    b = y;
                    detail = Some(d);
                }
                None => at = end,
            }
        }
        size /= 2;
    }
    // equal bytes where possible, then zeros
    for zero in [false, true] {
        let mut run = 64;
        while run > 0 && t0.elapsed() < limit {
            for i in 0..a.len() {
                let (mut ga, mut gb) = (Gadget::Raw(a[i].clone()), Gadget::Raw(b[i].clone()));
                let len = ga.datas().first().map_or(0, |d| d.0.len());
                let mut at = 0;
                while at < len && t0.elapsed() < limit {
                    let end = (at + run).min(len);
                    let (pa, pb) = (ga.clone(), gb.clone());
                    {
                        let mut da = ga.datas();
                        let mut db = gb.datas();
                        if zero {
                            da[0].0[at..end].fill(0);
                            db[0].0[at..end].fill(0);
                        } else {
                            let c = da[0].0[at..end].to_vec();
                            db[0].0[at..end].copy_from_slice(&c);
                        }
                    }
                    at = end;
                    if (&ga, &gb) == (&pa, &pb) {
                        continue;
                    }
                    let (mut x, mut y) = (a.clone(), b.clone());
                    (x[i], y[i]) = match (&ga, &gb) {
                        (Gadget::Raw(m), Gadget::Raw(n)) => (m.clone(), n.clone()),
                        _ => unreachable!(),
                    };
                    match bad(&x, &y) {
                        Some(d) => {
                            a = x;
                            b = y;
                            detail = Some(d);
                        }
                        None => (ga, gb) = (pa, pb),
                    }
                }
            }
            run /= 4;
        }
    }
    (a, b, detail)
}
