//! Simulated storage: streams that are read (behind the real cache) and sinks that are written.
use crate::choices::fnv;
use crate::ctx::{Ctx, R, Violation};
use crate::env;
use object::read::{ReadCache, ReadCacheRange, ReadRef};
use std::cell::{Cell, RefCell};
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::ops::Range;

/// Per-run fault configuration of the source (chances out of 64).
#[derive(Clone, Copy, Debug, Default)]
pub struct SourceCfg {
    pub short: u64,
    pub eintr: u64,
    pub err: u64,
    pub eof: u64,
    pub seek_err: u64,
    pub alloc: u64,
    pub one_byte: bool,
    /// chance that another reader of the same cache runs between two calls of the current one
    pub preempt: u64,
}

impl SourceCfg {
    /// Benign: nothing a conforming stream may not do.
    pub fn benign(ctx: &mut Ctx) -> Self {
        let lv = [0u64, 4, 16, 40];
        SourceCfg {
            short: *ctx.c.pick(&lv),
            eintr: *ctx.c.pick(&[0u64, 2, 10]),
            one_byte: ctx.c.chance(1, 8),
            preempt: *ctx.c.pick(&[0u64, 2, 8]),
            ..Default::default()
        }
    }
    pub fn faulty(ctx: &mut Ctx) -> Self {
        let mut s = Self::benign(ctx);
        // swarm: each kind enabled or not, at a rate that lets most runs make progress
        let rate = [0u64, 1, 2, 6, 16];
        s.err = *ctx.c.pick(&rate);
        s.eof = *ctx.c.pick(&[0u64, 1, 2, 6]);
        s.seek_err = *ctx.c.pick(&[0u64, 1, 4]);
        s.alloc = *ctx.c.pick(&[0u64, 1, 6]);
        if s.err + s.eof + s.seek_err + s.alloc == 0 {
            s.err = 2;
        }
        s
    }
}

pub struct World<'a> {
    ctx: *mut Ctx,
    pub data: &'a [u8],
    pub cfg: Cell<SourceCfg>,
    pub in_call: Cell<bool>,
    /// a benign-stream answer may differ from memory only for strings longer than the cache's limit
    pub strict: Cell<bool>,
    pub fired: Cell<u64>,
    pub mismatch: RefCell<Option<Violation>>,
    pub held: RefCell<Vec<(*const u8, usize, u64)>>,
    pub calls: Cell<u64>,
    pub hits: Cell<u64>,
    pub io_ops: Cell<u64>,
    /// a string longer than the cache's documented limit was refused
    pub limited: Cell<bool>,
    /// parts of the stored file whose content was lost (reads are noted in `touched`)
    pub lost: RefCell<Vec<Range<u64>>>,
    pub touched: Cell<bool>,
    /// the length of the file before it was torn
    pub full_len: Cell<u64>,
}

pub const STRING_LIMIT: usize = 4096;

impl<'a> World<'a> {
    pub fn new(ctx: &mut Ctx, data: &'a [u8], cfg: SourceCfg) -> Self {
        World {
            ctx,
            data,
            cfg: Cell::new(cfg),
            in_call: Cell::new(false),
            strict: Cell::new(true),
            fired: Cell::new(0),
            mismatch: RefCell::new(None),
            held: RefCell::new(Vec::new()),
            calls: Cell::new(0),
            hits: Cell::new(0),
            io_ops: Cell::new(0),
            limited: Cell::new(false),
            lost: RefCell::new(Vec::new()),
            touched: Cell::new(false),
            full_len: Cell::new(data.len() as u64),
        }
    }
    fn note(&self, start: u64, size: u64) {
        let end = start.saturating_add(size);
        if end > self.data.len() as u64 || self.lost.borrow().iter().any(|l| start < l.end && l.start < end) {
            self.touched.set(true);
        }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn ctx(&self) -> &mut Ctx {
        // Single-threaded simulation; borrows are momentary.
        unsafe { &mut *self.ctx }
    }
    fn roll(&self, n: u64) -> bool {
        n > 0 && self.ctx().c.chance(n, 64)
    }
    pub fn fire(&self, kind: &str) {
        self.fired.set(self.fired.get() + 1);
        self.ctx().fault(kind);
        self.ctx().ev(|| format!("fault {kind}"));
    }
    pub fn hold(&self, b: &[u8]) {
        let mut h = self.held.borrow_mut();
        if h.len() < 4000 {
            h.push((b.as_ptr(), b.len(), fnv(b)));
        }
    }
    /// Everything handed out must still be there unchanged.
    pub fn check_held(&self) -> R {
        for &(p, n, h) in self.held.borrow().iter() {
            let b = unsafe { std::slice::from_raw_parts(p, n) };
            if fnv(b) != h {
                return crate::ctx::violation("held-data-changed", format!("{n} bytes handed out earlier changed"));
            }
        }
        Ok(())
    }
    pub fn take_mismatch(&self) -> R {
        match self.mismatch.borrow_mut().take() {
            Some(v) => Err(v),
            None => Ok(()),
        }
    }
    fn report(&self, class: &str, detail: String) {
        let mut m = self.mismatch.borrow_mut();
        if m.is_none() {
            *m = Some(Violation { class: class.into(), detail });
        }
    }
}

/// The simulated stream under the real ReadCache.
pub struct SimSource {
    /// The world outlives every source of its run.
    w: *const World<'static>,
    pos: u64,
}

impl SimSource {
    pub fn new(w: &World<'_>) -> Self {
        let pos = w.ctx().c.below(w.data.len() as u64 + 10);
        SimSource { w: w as *const World<'_> as *const World<'static>, pos }
    }
    fn world(&self) -> &'static World<'static> {
        unsafe { &*self.w }
    }
}

impl Read for SimSource {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let w = self.world();
        w.io_ops.set(w.io_ops.get() + 1);
        w.ctx().steps += 1;
        let cfg = w.cfg.get();
        if w.roll(cfg.eintr) {
            w.ctx().fault("read_interrupted");
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if w.roll(cfg.err) {
            w.fire("read_error");
            // the position after an error is unspecified
            self.pos = self.pos.wrapping_add(w.ctx().c.below(64));
            // a failing device may have scribbled over the buffer
            let n = (w.ctx().c.below(64) as usize).min(buf.len());
            for b in &mut buf[..n] {
                *b = 0xa5;
            }
            return Err(io::Error::from_raw_os_error(5));
        }
        if w.roll(cfg.eof) {
            w.fire("read_early_eof");
            return Ok(0);
        }
        let len = w.data.len() as u64;
        let avail = len.saturating_sub(self.pos).min(buf.len() as u64) as usize;
        let mut n = avail;
        if n > 1 {
            if cfg.one_byte && n <= 64 {
                n = 1;
                w.ctx().fault("read_short");
            } else if w.roll(cfg.short) {
                n = 1 + w.ctx().c.below(n as u64 - 1) as usize;
                w.ctx().fault("read_short");
            }
        }
        let p = self.pos as usize;
        buf[..n].copy_from_slice(&w.data[p.min(w.data.len())..][..n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for SimSource {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        let w = self.world();
        w.io_ops.set(w.io_ops.get() + 1);
        let cfg = w.cfg.get();
        if w.roll(cfg.seek_err) {
            w.fire("seek_error");
            return Err(io::Error::from_raw_os_error(5));
        }
        let p = match pos {
            SeekFrom::Start(p) => p,
            SeekFrom::End(d) => (w.data.len() as i64 + d) as u64,
            SeekFrom::Current(d) => (self.pos as i64 + d) as u64,
        };
        self.pos = p;
        Ok(p)
    }
}

#[derive(Clone, Copy)]
pub enum Src<'a> {
    Slice(&'a [u8]),
    Cache(&'a ReadCache<SimSource>),
    Range(ReadCacheRange<'a, SimSource>, u64, u64),
}

/// Reader handle given to the code under test: forwards every call to the real cache, lets other readers run
/// in between, and compares each answer with memory.
#[derive(Clone, Copy)]
pub struct SimRef<'a> {
    pub w: &'a World<'a>,
    pub src: Src<'a>,
}

impl<'a> SimRef<'a> {
    fn base(&self) -> u64 {
        match self.src {
            Src::Range(_, off, _) => off,
            _ => 0,
        }
    }
    fn memory(&self) -> Option<&'a [u8]> {
        match self.src {
            Src::Slice(s) => Some(s),
            Src::Cache(_) => Some(self.w.data),
            // A range of a file is what the same range of memory is.
            Src::Range(_, off, size) => {
                let d = self.w.data;
                d.get(off as usize..(off.checked_add(size)?) as usize)
            }
        }
    }
    fn enter(&self) {
        let w = self.w;
        w.calls.set(w.calls.get() + 1);
        if w.calls.get() > 3_000_000 {
            // deterministic bound on the work of one run
            panic!("simulation: more than 3000000 read calls in one run");
        }
        if w.in_call.get() {
            return;
        }
        if w.roll(w.cfg.get().preempt) {
            // another reader of the same cache runs here
            w.in_call.set(true);
            w.ctx().fault("preempted_by_other_reader");
            raw_query(w, self.src);
            w.in_call.set(false);
        }
    }
    fn call<T>(&self, f: impl FnOnce() -> T) -> (T, bool) {
        let w = self.w;
        if w.roll(w.cfg.get().alloc) {
            let (r, fired) = env::with_alloc_failure(0, 1, 0, f);
            if fired {
                w.fire("alloc_failure");
            }
            return (r, fired);
        }
        (f(), false)
    }
    fn compare(&self, what: &str, got: Result<&'a [u8], ()>, want: Result<&'a [u8], ()>, fired: bool) {
        let w = self.w;
        match (got, want) {
            (Ok(a), Ok(b)) if a == b => {
                w.hold(a);
            }
            (Ok(a), Ok(b)) => {
                let n = a.len().min(b.len()).min(24);
                w.report(
                    "wrong-data",
                    format!("{what}: stream gave {} bytes {:02x?}.., memory has {} bytes {:02x?}..", a.len(), &a[..n], b.len(), &b[..n]),
                );
            }
            (Ok(a), Err(())) => w.report("stream-ok-memory-err", format!("{what}: stream gave {} bytes, memory gives an error", a.len())),
            (Err(()), Ok(b)) => {
                if what.starts_with("str") && b.len() >= STRING_LIMIT {
                    w.limited.set(true);
                }
                if !fired && w.strict.get() && !(what.starts_with("str") && b.len() >= STRING_LIMIT) {
                    w.report("stream-err-memory-ok", format!("{what}: stream gave an error without any fault, memory gives {} bytes", b.len()));
                }
            }
            (Err(()), Err(())) => {}
        }
    }
}

impl<'a> ReadRef<'a> for SimRef<'a> {
    fn len(self) -> Result<u64, ()> {
        self.enter();
        if self.w.full_len.get() != self.w.data.len() as u64 {
            self.w.touched.set(true);
        }
        let f0 = self.w.fired.get();
        let (r, _) = self.call(|| match self.src {
            Src::Slice(s) => ReadRef::len(s),
            Src::Cache(c) => c.len(),
            Src::Range(r, _, _) => r.len(),
        });
        if let Some(m) = self.memory() {
            let fired = self.w.fired.get() != f0;
            match r {
                Ok(n) if n != m.len() as u64 => self.w.report("wrong-len", format!("len() gave {n}, memory has {}", m.len())),
                Err(()) if !fired => self.w.report("stream-err-memory-ok", "len() failed without any fault".into()),
                _ => {}
            }
        }
        r
    }
    fn read_bytes_at(self, offset: u64, size: u64) -> Result<&'a [u8], ()> {
        self.enter();
        self.w.note(self.base().saturating_add(offset), size);
        let f0 = self.w.fired.get();
        let (r, _) = self.call(|| match self.src {
            Src::Slice(s) => s.read_bytes_at(offset, size),
            Src::Cache(c) => c.read_bytes_at(offset, size),
            Src::Range(r, _, _) => r.read_bytes_at(offset, size),
        });
        if let Some(m) = self.memory() {
            let want = m.read_bytes_at(offset, size);
            self.compare(&format!("bytes {offset}+{size}"), r, want, self.w.fired.get() != f0);
        }
        r
    }
    fn read_bytes_at_until(self, range: Range<u64>, delimiter: u8) -> Result<&'a [u8], ()> {
        self.enter();
        let f0 = self.w.fired.get();
        let rg = range.clone();
        let (r, _) = self.call(|| match self.src {
            Src::Slice(s) => s.read_bytes_at_until(rg, delimiter),
            Src::Cache(c) => c.read_bytes_at_until(rg, delimiter),
            Src::Range(r, _, _) => r.read_bytes_at_until(rg, delimiter),
        });
        if let Some(m) = self.memory() {
            let want = m.read_bytes_at_until(range.clone(), delimiter);
            self.compare(&format!("str {range:?} delim {delimiter:#x}"), r, want, self.w.fired.get() != f0);
        }
        // up to the delimiter, or all of the range
        let base = self.base();
        self.w.note(base.saturating_add(range.start), match r {
            Ok(b) => b.len() as u64 + 1,
            Err(()) => range.end.saturating_sub(range.start),
        });
        r
    }
}

/// One query of a reader that works directly on bytes.
pub fn raw_query<'a>(w: &'a World<'a>, src: Src<'a>) {
    let ctx = w.ctx();
    let len = w.data.len() as u64;
    let src = match src {
        Src::Slice(_) => return,
        Src::Cache(c) => {
            if ctx.c.chance(1, 4) {
                let (o, s) = some_range(ctx, len);
                Src::Range(c.range(o, s), o, s)
            } else {
                Src::Cache(c)
            }
        }
        r => r,
    };
    let dlen = match src {
        Src::Range(_, _, s) => s,
        _ => len,
    };
    let r = SimRef { w, src };
    match ctx.c.below(10) {
        0 => {
            let _ = r.len();
        }
        1..=4 => {
            let (o, s) = some_range(ctx, dlen);
            let x = r.read_bytes_at(o, s);
            ctx.ev(|| format!("raw bytes {o}+{s} -> {}", show(x)));
        }
        _ => {
            let (o, s) = some_range(ctx, dlen);
            let d = *ctx.c.pick(&[0u8, 0, 0, b'\n', b'/', 0xff]);
            let end = if ctx.c.chance(1, 16) { o.saturating_sub(ctx.c.below(4)) } else { o.saturating_add(s) };
            let x = r.read_bytes_at_until(o..end, d);
            ctx.ev(|| format!("raw str {o}..{end} delim {d:#x} -> {}", show(x)));
        }
    }
    // The invariant over time: what was handed out stays.
    let _ = w.check_held().map_err(|v| w.report("held-data-changed", v.detail));
}

fn show(x: Result<&[u8], ()>) -> String {
    match x {
        Ok(b) => format!("{} bytes", b.len()),
        Err(()) => "error".into(),
    }
}

/// A (offset, size) pair biased to collide with earlier ones and to touch boundaries.
fn some_range(ctx: &mut Ctx, len: u64) -> (u64, u64) {
    let grid = *ctx.c.pick(&[1u64, 8, 16, 64]);
    let o = match ctx.c.below(8) {
        0 => len.saturating_sub(ctx.c.below(20)),
        1 => len.saturating_add(ctx.c.below(3)),
        2 => u64::MAX - ctx.c.below(16),
        3 => ctx.c.below(4) * 16,
        _ => (ctx.c.below(len.saturating_add(1)) / grid) * grid,
    };
    let s = match ctx.c.below(8) {
        0 => 0,
        1 => len.saturating_sub(o),
        2 => len.saturating_sub(o).wrapping_add(ctx.c.below(3)),
        3 => u64::MAX - ctx.c.below(4),
        4 => ctx.c.below(5000),
        _ => ctx.c.below(64),
    };
    (o, s)
}

// ------------------------------------------------------------------ sinks

#[derive(Clone, Copy, Debug, Default)]
pub struct SinkCfg {
    pub short: u64,
    pub eintr: u64,
    pub one_byte: bool,
    /// byte position at which writes fail (u64::MAX: never)
    pub fail_at: u64,
    /// what happens at fail_at
    pub fail_kind: FailKind,
    /// fail the n-th call of flush
    pub flush_fail: bool,
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub enum FailKind {
    #[default]
    None,
    /// ENOSPC after writing up to fail_at
    Full,
    /// EIO without writing anything of the call that crosses fail_at
    Eio,
    /// write returns Ok(0)
    Zero,
    /// error once, then works again (the data of the failed call is lost)
    Transient,
}

/// The simulated file being written.
pub struct SimSink {
    ctx: *mut Ctx,
    pub cfg: SinkCfg,
    pub data: Vec<u8>,
    pub failed: bool,
    pub fail_code: Option<i32>,
    pub calls_after_failure: u64,
    pub writes: u64,
    pub flushes: u64,
}

impl SimSink {
    pub fn new(ctx: &mut Ctx, cfg: SinkCfg) -> Self {
        SimSink { ctx, cfg, data: Vec::new(), failed: false, fail_code: None, calls_after_failure: 0, writes: 0, flushes: 0 }
    }
    fn ctx(&self) -> &'static mut Ctx {
        unsafe { &mut *self.ctx }
    }
    fn roll(&self, n: u64) -> bool {
        n > 0 && self.ctx().c.chance(n, 64)
    }
}

impl Write for SimSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.writes += 1;
        self.ctx().steps += 1;
        if self.failed {
            self.calls_after_failure += 1;
            if self.cfg.fail_kind != FailKind::Transient {
                return Err(io::Error::from_raw_os_error(32));
            }
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.roll(self.cfg.eintr) {
            self.ctx().fault("write_interrupted");
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut n = buf.len();
        if n > 1 {
            if self.cfg.one_byte && n <= 64 {
                n = 1;
                self.ctx().fault("write_short");
            } else if self.roll(self.cfg.short) {
                n = 1 + self.ctx().c.below(n as u64 - 1) as usize;
                self.ctx().fault("write_short");
            }
        }
        let pos = self.data.len() as u64;
        if !self.failed && self.cfg.fail_kind != FailKind::None && pos + n as u64 > self.cfg.fail_at {
            let room = self.cfg.fail_at.saturating_sub(pos) as usize;
            match self.cfg.fail_kind {
                FailKind::Full => {
                    if room > 0 {
                        self.data.extend_from_slice(&buf[..room]);
                        return Ok(room);
                    }
                    self.failed = true;
                    self.fail_code = Some(28);
                    self.ctx().fault("disk_full");
                    return Err(io::Error::from_raw_os_error(28));
                }
                FailKind::Zero => {
                    if room > 0 {
                        self.data.extend_from_slice(&buf[..room]);
                        return Ok(room);
                    }
                    self.failed = true;
                    self.ctx().fault("write_zero");
                    return Ok(0);
                }
                FailKind::Eio | FailKind::Transient => {
                    self.failed = true;
                    self.fail_code = Some(5);
                    self.ctx().fault(if self.cfg.fail_kind == FailKind::Eio { "write_error" } else { "write_error_transient" });
                    return Err(io::Error::from_raw_os_error(5));
                }
                FailKind::None => unreachable!(),
            }
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.cfg.flush_fail {
            self.ctx().fault("flush_error");
            self.failed = true;
            self.fail_code = Some(5);
            return Err(io::Error::from_raw_os_error(5));
        }
        Ok(())
    }
}

/// Give `f` the content of a file through the real cache over a stream configured by `cfg`.
pub fn through_stream<T>(ctx: &mut Ctx, data: &[u8], cfg: SourceCfg, f: impl for<'a> FnOnce(SimRef<'a>) -> R<T>) -> R<T> {
    let w = World::new(ctx, data, cfg);
    let cache = ReadCache::new(SimSource::new(&w));
    let r = f(SimRef { w: &w, src: Src::Cache(&cache) });
    // a wrong answer at the cache explains everything above it
    w.take_mismatch()?;
    w.check_held()?;
    let (ops, calls) = (w.io_ops.get(), w.calls.get());
    ctx.steps += calls;
    ctx.fold(ops);
    r
}
