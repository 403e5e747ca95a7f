//! A running agent process of one backend.
use crate::op::Op;
use serde::Deserialize;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Deserialize)]
pub struct Backend {
    pub name: String,
    pub cmd: Vec<String>,
    /// share of the programs this backend runs, in 1/64
    pub weight: u32,
    #[serde(default)]
    pub env: Vec<(String, String)>,
    /// the agent was built with the thread operations
    #[serde(default)]
    pub threads: bool,
    /// seconds without an answer before the agent counts as hung
    #[serde(default = "patience")]
    pub patience: u64,
    /// what the tracer needs
    #[serde(default)]
    pub trace: Option<crate::trace::TraceInfo>,
}
fn patience() -> u64 {
    120
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Reply {
    pub st: u8,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub enum Fail {
    /// the process died (how) before it answered the frame
    Crash(String),
    /// no verdict: hung, killed from outside, could not be started, garbled
    Error(String),
}

pub struct Agent {
    child: Arc<Mutex<Child>>,
    tx: ChildStdin,
    rx: ChildStdout,
    watch: Arc<Mutex<(Option<Instant>, bool, bool)>>, // deadline, fired, stop
    stderr: Arc<Mutex<Vec<u8>>>,
    errs: Option<std::thread::JoinHandle<()>>,
    patience: u64,
    buf: Vec<u8>,
}

pub const UNSUPPORTED: &str = "not supported by the interpreter";
pub const FRAME_IN: usize = 100_000;
pub const FRAME_OUT: usize = 100_000;

impl Agent {
    pub fn start(b: &Backend) -> Result<Agent, Fail> {
        let mut c = Command::new(&b.cmd[0]);
        c.args(&b.cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        for (k, v) in &b.env {
            c.env(k, v);
        }
        let mut child = c.spawn().map_err(|e| Fail::Error(format!("cannot start {:?}: {e}", b.cmd)))?;
        let tx = child.stdin.take().unwrap();
        let rx = child.stdout.take().unwrap();
        let mut er = child.stderr.take().unwrap();
        let stderr = Arc::new(Mutex::new(Vec::new()));
        let s2 = stderr.clone();
        let errs = std::thread::spawn(move || {
            let mut b = [0; 4096];
            while let Ok(n) = er.read(&mut b) {
                if n == 0 {
                    break;
                }
                let mut s = s2.lock().unwrap();
                if s.len() < 1 << 16 {
                    s.extend_from_slice(&b[..n]);
                }
            }
        });
        let child = Arc::new(Mutex::new(child));
        let watch = Arc::new(Mutex::new((None::<Instant>, false, false)));
        let (w2, c2) = (watch.clone(), child.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let mut w = w2.lock().unwrap();
            if w.2 {
                return;
            }
            if w.0.is_some_and(|d| Instant::now() > d) {
                w.1 = true;
                let _ = c2.lock().unwrap().kill();
                return;
            }
        });
        Ok(Agent { child, tx, rx, watch, stderr, errs: Some(errs), patience: b.patience, buf: Vec::new() })
    }

    /// Runs the commands in order. On failure the answers that had arrived are lost with the process.
    pub fn exec<'a>(&mut self, ops: impl Iterator<Item = &'a Op>) -> Result<Vec<Reply>, Fail> {
        let mut replies = Vec::new();
        let mut ops = ops.peekable();
        while ops.peek().is_some() {
            let mut frame = std::mem::take(&mut self.buf);
            frame.clear();
            frame.extend([0; 4]);
            let (mut n, mut out) = (0, 0);
            while let Some(op) = ops.peek() {
                let bound = op.out_bound();
                let at = frame.len();
                op.encode(&mut frame);
                if n > 0 && (frame.len() > FRAME_IN || out + bound > FRAME_OUT) {
                    frame.truncate(at);
                    break;
                }
                out += bound;
                n += 1;
                ops.next();
            }
            let len = (frame.len() - 4) as u32;
            frame[..4].copy_from_slice(&len.to_le_bytes());
            let r = self.round(&frame, n, &mut replies);
            self.buf = frame;
            r?;
        }
        Ok(replies)
    }

    fn round(&mut self, frame: &[u8], n: usize, replies: &mut Vec<Reply>) -> Result<(), Fail> {
        self.watch.lock().unwrap().0 = Some(Instant::now() + Duration::from_secs(self.patience));
        let r = self.round_io(frame, n, replies);
        self.watch.lock().unwrap().0 = None;
        r.map_err(|e| self.dead(e))
    }

    fn round_io(&mut self, frame: &[u8], n: usize, replies: &mut Vec<Reply>) -> Result<(), String> {
        let io = |e: std::io::Error| e.to_string();
        self.tx.write_all(frame).map_err(io)?;
        self.tx.flush().map_err(io)?;
        let mut h = [0; 4];
        self.rx.read_exact(&mut h).map_err(io)?;
        let len = u32::from_le_bytes(h) as usize;
        if len > 1 << 20 {
            return Err("garbled answer".into());
        }
        let mut buf = vec![0; len];
        self.rx.read_exact(&mut buf).map_err(io)?;
        let mut p = &buf[..];
        for _ in 0..n {
            if p.len() < 3 {
                return Err("short answer".into());
            }
            let k = u16::from_le_bytes([p[0], p[1]]) as usize;
            if p.len() < 3 + k {
                return Err("short answer".into());
            }
            replies.push(Reply { st: p[2], data: p[3..3 + k].to_vec() });
            p = &p[3 + k..];
        }
        if !p.is_empty() {
            return Err("long answer".into());
        }
        Ok(())
    }

    fn dead(&mut self, e: String) -> Fail {
        // give the process a moment to end on its own
        for _ in 0..40 {
            if let Ok(Some(_)) = self.child.lock().unwrap().try_wait() {
                break;
            }
            std::thread::sleep(Duration::from_millis(50));
        }
        let mut c = self.child.lock().unwrap();
        let ended = matches!(c.try_wait(), Ok(Some(_)));
        let _ = c.kill();
        let st = c.wait();
        drop(c);
        if let Some(h) = self.errs.take() {
            if ended {
                let _ = h.join();
            }
        }
        let text = String::from_utf8_lossy(&self.stderr.lock().unwrap()).trim().chars().take(6000).collect::<String>();
        if self.watch.lock().unwrap().1 {
            return Fail::Error(format!("no answer within {} s", self.patience));
        }
        match st {
            Ok(s) if !ended => Fail::Error(format!("{e} ({s:?}) {text}")),
            Ok(s) => match (s.signal(), s.code()) {
                // ended from outside (memory guard, operator)
                (Some(9 | 15 | 1 | 2), _) => Fail::Error(format!("agent was killed by signal {:?}", s.signal())),
                (Some(n), _) => Fail::Crash(format!("signal {n} {text}")),
                // the interpreter cannot run an instruction
                (_, Some(1)) if text.contains("error: unsupported operation") => Fail::Error(format!("{UNSUPPORTED}: {text}")),
                // the agents' own codes for harness trouble
                (_, Some(c @ (70 | 71 | 72 | 73 | 74))) => Fail::Error(format!("agent exit code {c}")),
                (_, Some(c)) => Fail::Crash(format!("exit code {c} {text}")),
                _ => Fail::Error(e),
            },
            Err(x) => Fail::Error(format!("{e}; {x}")),
        }
    }
}

impl Drop for Agent {
    fn drop(&mut self) {
        self.watch.lock().unwrap().2 = true;
        let mut c = self.child.lock().unwrap();
        let _ = c.kill();
        let _ = c.wait();
    }
}
