//! The simulated storage device (synchronous side) and the per-run context.
use crate::tape::{mix, Lane};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::io::{self, BufReader, Cursor, ErrorKind, Read, Seek, SeekFrom};
use std::rc::Rc;

/// A property violation found by an oracle.
#[derive(Debug, Clone)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
pub type Check = Result<(), Violation>;
pub fn viol<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), detail: detail.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($arg:tt)*) => {
        if !($c) { return $crate::sim::viol($class, format!($($arg)*)); }
    };
}

pub const STEP_PANIC: &str = "FSIM-STEP-BUDGET";

#[derive(Default, Clone)]
pub struct Stats {
    pub counts: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
}

/// Trigger of an injected hard failure.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Trig {
    None,
    Read(u64),
    Seek(u64),
    Byte(u64),
}

#[derive(Clone, Debug)]
pub struct FaultCfg {
    /// 0: deliver all that is asked, 1: one byte at a time, 2: 1..=k bytes, 3: mixed
    pub short: u8,
    pub short_max: u64,
    /// Interrupted probability, in 1/64ths
    pub intr: u64,
    pub trig: Trig,
    pub sticky: bool,
    pub kind: ErrorKind,
}
impl Default for FaultCfg {
    fn default() -> Self {
        FaultCfg { short: 0, short_max: 1, intr: 0, trig: Trig::None, sticky: false, kind: ErrorKind::Other }
    }
}

pub const ERR_KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::InvalidData,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::OutOfMemory,
];

impl FaultCfg {
    /// Delivery a correct reader has to be indifferent to.
    pub fn benign(l: &mut Lane) -> Self {
        let mut c = FaultCfg::default();
        c.short = l.weighted(&[3, 1, 3, 3]) as u8;
        if c.short >= 2 {
            c.short_max = *l.pick(&[2, 3, 7, 13, 79, 80, 81, 512, 2879, 2880, 2881, 5000]);
        }
        c.intr = *l.pick(&[0, 0, 1, 8, 24]);
        c
    }
    pub fn describe(&self) -> String {
        format!("{self:?}")
    }
}

pub struct Ctl {
    pub lane: Lane,
    pub cfg: FaultCfg,
    pub reads: u64,
    pub seeks: u64,
    pub bytes_read: u64,
    pub steps: u64,
    pub budget: u64,
    /// number of hard failures delivered so far
    pub trips: u64,
    pub fired: bool,
    pub armed: bool,
    pub stats: Stats,
    pub trace: u64,
    pub log: Option<Vec<String>>,
}
impl Ctl {
    pub fn ev(&mut self, tag: u64, a: u64, b: u64) {
        self.trace = mix(self.trace ^ mix(tag ^ mix(a ^ mix(b))));
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            if l.len() < 4000 {
                l.push(f());
            }
        }
    }
    fn step(&mut self) {
        self.steps += 1;
        if self.steps > self.budget {
            panic!("{STEP_PANIC}");
        }
    }
    fn fail(&mut self) -> bool {
        if !self.armed {
            return false;
        }
        if self.cfg.sticky {
            self.fired = true;
            true
        } else if !self.fired {
            self.fired = true;
            true
        } else {
            false
        }
    }
}
pub type CtlRef = Rc<RefCell<Ctl>>;

#[derive(Clone)]
pub enum Content {
    Bytes(Rc<[u8]>),
    Proc(Rc<dyn Fn(u64, &mut [u8])>, u64),
}
impl Content {
    pub fn len(&self) -> u64 {
        match self {
            Content::Bytes(b) => b.len() as u64,
            Content::Proc(_, n) => *n,
        }
    }
}

#[derive(Clone)]
pub struct SimDevice {
    pub content: Content,
    pub pos: u64,
    pub ctl: CtlRef,
    pub id: u64,
}
impl fmt::Debug for SimDevice {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SimDevice#{}@{}", self.id, self.pos)
    }
}
impl SimDevice {
    pub fn new(bytes: &Rc<[u8]>, ctl: &CtlRef) -> Self {
        SimDevice { content: Content::Bytes(bytes.clone()), pos: 0, ctl: ctl.clone(), id: 0 }
    }
}

impl Read for SimDevice {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut g = self.ctl.borrow_mut();
        let c = &mut *g;
        c.step();
        c.stats.add("dev_reads", 1);
        if buf.is_empty() {
            return Ok(0);
        }
        let k = c.reads;
        c.reads += 1;
        let mut limit = buf.len() as u64;
        // injected hard failures
        let hit = match c.cfg.trig {
            Trig::Read(n) => k >= n,
            Trig::Byte(b) => {
                if self.pos < b && self.pos + limit > b {
                    if c.armed && (c.cfg.sticky || !c.fired) {
                        limit = b - self.pos;
                    }
                    false
                } else {
                    self.pos == b || (c.cfg.sticky && self.pos > b)
                }
            }
            _ => false,
        };
        if hit && c.fail() {
            c.trips += 1;
            c.stats.add("fault_read_error", 1);
            let (kind, pos, id) = (c.cfg.kind, self.pos, self.id);
            c.ev(1, pos, 0xE);
            c.note(|| format!("dev{id} read @{pos} -> Err({kind:?}) [injected]"));
            return Err(io::Error::new(kind, "injected read failure"));
        }
        if c.cfg.intr > 0 && { let p = c.cfg.intr; c.lane.chance(p, 64) } {
            c.stats.add("fault_interrupted", 1);
            let (pos, id) = (self.pos, self.id);
            c.ev(1, pos, 0x1);
            c.note(|| format!("dev{id} read @{pos} -> Err(Interrupted) [injected]"));
            return Err(io::Error::new(ErrorKind::Interrupted, "injected EINTR"));
        }
        let avail = self.content.len().saturating_sub(self.pos);
        let want = limit.min(avail);
        let n = if want <= 1 {
            want
        } else {
            match c.cfg.short {
                0 => want,
                1 => 1,
                2 => want.min(1 + { let m = c.cfg.short_max; c.lane.below(m) }),
                _ => {
                    if c.lane.chance(1, 2) {
                        let m = c.cfg.short_max;
                        want.min(1 + c.lane.below(m))
                    } else {
                        want
                    }
                }
            }
        };
        if n < want {
            c.stats.add("fault_short_read", 1);
        }
        if n == 0 && avail == 0 {
            c.stats.add("eof_reads", 1);
        }
        match &self.content {
            Content::Bytes(b) => {
                let p = self.pos.min(b.len() as u64) as usize;
                buf[..n as usize].copy_from_slice(&b[p..p + n as usize]);
            }
            Content::Proc(f, _) => f(self.pos, &mut buf[..n as usize]),
        }
        let (pos, id, asked) = (self.pos, self.id, buf.len());
        c.ev(1, pos, n << 8);
        c.note(|| format!("dev{id} read @{pos} asked {asked} -> {n}"));
        c.bytes_read += n;
        self.pos += n;
        Ok(n as usize)
    }
}

impl Seek for SimDevice {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let mut g = self.ctl.borrow_mut();
        let c = &mut *g;
        c.step();
        c.stats.add("dev_seeks", 1);
        let k = c.seeks;
        c.seeks += 1;
        if let Trig::Seek(n) = c.cfg.trig {
            if k >= n && c.fail() {
                c.trips += 1;
                c.stats.add("fault_seek_error", 1);
                c.ev(2, k, 0xE);
                let (kind, id) = (c.cfg.kind, self.id);
                c.note(|| format!("dev{id} seek {p:?} -> Err({kind:?}) [injected]"));
                return Err(io::Error::new(kind, "injected seek failure"));
            }
        }
        let np: i128 = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.content.len() as i128 + d as i128,
        };
        if np < 0 || np > i64::MAX as i128 {
            c.ev(2, k, 0xF);
            return Err(io::Error::new(ErrorKind::InvalidInput, "invalid seek"));
        }
        self.pos = np as u64;
        let (pos, id) = (self.pos, self.id);
        c.ev(2, pos, 0);
        c.note(|| format!("dev{id} seek {p:?} -> {pos}"));
        Ok(self.pos)
    }
}

/// Every kind of reader a user may hand to the library, behind one type.
pub enum AnyReader {
    Raw(SimDevice),
    Buf(BufReader<SimDevice>),
    Mem(Cursor<Vec<u8>>),
    Gz(fitsrs::gz::GzReader<BufReader<SimDevice>>),
}
impl fmt::Debug for AnyReader {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("AnyReader")
    }
}
impl Read for AnyReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self {
            AnyReader::Raw(r) => r.read(buf),
            AnyReader::Buf(r) => r.read(buf),
            AnyReader::Mem(r) => r.read(buf),
            AnyReader::Gz(r) => r.read(buf),
        }
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        match self {
            AnyReader::Raw(r) => r.read_exact(buf),
            AnyReader::Buf(r) => r.read_exact(buf),
            AnyReader::Mem(r) => r.read_exact(buf),
            AnyReader::Gz(r) => r.read_exact(buf),
        }
    }
}
impl Seek for AnyReader {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        match self {
            AnyReader::Raw(r) => r.seek(pos),
            AnyReader::Buf(r) => r.seek(pos),
            AnyReader::Mem(r) => r.seek(pos),
            AnyReader::Gz(r) => r.seek(pos),
        }
    }
    fn stream_position(&mut self) -> io::Result<u64> {
        match self {
            AnyReader::Raw(r) => r.stream_position(),
            AnyReader::Buf(r) => r.stream_position(),
            AnyReader::Mem(r) => r.stream_position(),
            AnyReader::Gz(r) => r.stream_position(),
        }
    }
    fn seek_relative(&mut self, off: i64) -> io::Result<()> {
        match self {
            AnyReader::Raw(r) => r.seek_relative(off),
            AnyReader::Buf(r) => r.seek_relative(off),
            AnyReader::Mem(r) => r.seek_relative(off),
            AnyReader::Gz(r) => r.seek_relative(off),
        }
    }
}

pub const BUF_CAPS: [usize; 12] = [8192, 1, 2, 7, 16, 79, 80, 81, 512, 2880, 2881, 65536];

/// The context of one simulated run.
pub struct Ctx {
    pub file: Lane,
    pub ops: Lane,
    pub ctl: CtlRef,
    /// description of the run, filled lazily for reports
    pub desc: Vec<String>,
    pub verbose: bool,
    /// structural signature hash of what the run did
    pub sig: u64,
    pub nontrivial: bool,
    pub extra: Stats,
    pub sim_time: u64,
}
impl Ctx {
    pub fn new(file: Lane, ops: Lane, dev: Lane, verbose: bool) -> Self {
        Ctx {
            file,
            ops,
            ctl: Rc::new(RefCell::new(Ctl {
                lane: dev,
                cfg: FaultCfg::default(),
                reads: 0,
                seeks: 0,
                bytes_read: 0,
                steps: 0,
                budget: 8_000_000,
                trips: 0,
                fired: false,
                armed: true,
                stats: Stats::default(),
                trace: 0,
                log: if verbose { Some(vec![]) } else { None },
            })),
            desc: vec![],
            verbose,
            sig: 0,
            nontrivial: false,
            extra: Stats::default(),
            sim_time: 0,
        }
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.ctl.borrow_mut().note(|| format!("# {s}"));
            self.desc.push(s);
        }
    }
    pub fn mark(&mut self, x: u64) {
        self.sig = mix(self.sig ^ mix(x));
        self.ctl.borrow_mut().ev(7, x, 0);
    }
    pub fn count(&mut self, k: &'static str) {
        self.extra.add(k, 1);
    }
    pub fn trips(&self) -> u64 {
        self.ctl.borrow().trips
    }
    pub fn set_cfg(&mut self, c: FaultCfg) {
        self.say(|| format!("device: {}", c.describe()));
        self.ctl.borrow_mut().cfg = c;
    }
    pub fn dev(&self, bytes: &Rc<[u8]>) -> SimDevice {
        SimDevice::new(bytes, &self.ctl)
    }
    /// Pick how the library gets at the bytes.
    pub fn reader(&mut self, bytes: &Rc<[u8]>, start: u64, allow_mem: bool) -> AnyReader {
        let k = self.ops.weighted(&[4, 8, if allow_mem { 1 } else { 0 }]);
        match k {
            0 => {
                self.say(|| "reader: raw device".into());
                let mut d = self.dev(bytes);
                d.pos = start;
                self.mark(100);
                AnyReader::Raw(d)
            }
            2 => {
                self.say(|| "reader: in-memory cursor".into());
                self.mark(102);
                let mut c = Cursor::new(bytes.to_vec());
                c.set_position(start);
                AnyReader::Mem(c)
            }
            _ => {
                let cap = *self.ops.pick(&BUF_CAPS);
                self.say(|| format!("reader: BufReader(capacity {cap})"));
                self.mark(1000 + cap as u64);
                let mut d = self.dev(bytes);
                d.pos = start;
                AnyReader::Buf(BufReader::with_capacity(cap, d))
            }
        }
    }
}
