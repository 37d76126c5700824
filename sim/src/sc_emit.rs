//! Scenarios about handing an emitted file to its sink: C03, C04, C05, C09.
use crate::choices::fnv;
use crate::ctx::{Ctx, R, violation};
use crate::describe::{self, Builder, Done, GenOpts, Op, Target};
use crate::ensure;
use crate::env;
use crate::simio::{FailKind, SimSink, SinkCfg};
use crate::verify;
use object::write::{CountingBuffer, StreamingBuffer, WritableBuffer};
use std::io::{self, Write};

/// Something that can be emitted any number of times.
pub trait Subject {
    fn name(&self) -> String;
    fn emit(&self, b: &mut dyn WritableBuffer) -> Result<(), String>;
    /// The subject's own way of writing to a stream, if it has one.
    fn stream(&self, _w: &mut dyn Write) -> Option<Result<(), Box<dyn std::error::Error>>> {
        None
    }
    /// Does it promise one `reserve` call with the exact size?
    fn announces(&self) -> bool {
        true
    }
    fn valid(&self) -> Option<bool> {
        None
    }
}

pub struct ObjSubject(pub Builder);

impl Subject for ObjSubject {
    fn name(&self) -> String {
        format!("object {}", self.0.t.name())
    }
    fn emit(&self, b: &mut dyn WritableBuffer) -> Result<(), String> {
        self.0.obj.emit(b).map_err(|e| e.to_string())
    }
    fn stream(&self, w: &mut dyn Write) -> Option<Result<(), Box<dyn std::error::Error>>> {
        Some(self.0.obj.write_stream(w))
    }
    fn valid(&self) -> Option<bool> {
        Some(describe::emit_problem(&self.0.t, &self.0.m).is_none())
    }
}

fn describe_object(ctx: &mut Ctx, max_ops: u64, inv: u64) -> R<(Builder, Vec<(Op, Done)>)> {
    let t = Target::pick(&mut ctx.c);
    let o = GenOpts { max_ops, relocs: ctx.c.chance(3, 4), invalid: inv };
    describe::build(ctx, t, &o)
}

pub fn subject(ctx: &mut Ctx) -> R<Box<dyn Subject>> {
    match ctx.c.below(10) {
        9 => crate::sc_dyn::subject(ctx),
        0 => crate::sc_build::subject(ctx),
        1 => crate::sc_pe::subject(ctx),
        2 => crate::sc_macho::subject(ctx),
        _ => {
            let inv = if ctx.c.chance(1, 6) { 6 } else { 0 };
            Ok(Box::new(ObjSubject(describe_object(ctx, 40, inv)?.0)))
        }
    }
}

/// A `WritableBuffer` that records what it is told and given.
#[derive(Default)]
pub struct Recorder {
    pub data: Vec<u8>,
    pub reserved: Vec<u64>,
    pub writes_before_reserve: u64,
    pub refuse: bool,
    /// deliver runs of zeros through the provided method of the trait
    pub default_zeros: bool,
    pub log: Vec<u64>,
}

impl WritableBuffer for Recorder {
    fn reserve(&mut self, size: u64) -> Result<(), ()> {
        if !self.data.is_empty() {
            self.writes_before_reserve += 1;
        }
        self.reserved.push(size);
        if self.refuse { Err(()) } else { Ok(()) }
    }
    fn write_bytes(&mut self, val: &[u8]) {
        self.log.push(self.data.len() as u64);
        self.data.extend_from_slice(val);
    }
    fn write_zeros(&mut self, additional: u64) {
        if self.default_zeros {
            let mut left = additional;
            while left > 0 {
                let n = left.min(7) as usize;
                self.write_bytes(&[0; 7][..n]);
                left -= n as u64;
            }
        } else {
            self.log.push(self.data.len() as u64);
            let n = self.data.len() + additional as usize;
            self.data.resize(n, 0);
        }
    }
}

fn diff(a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).position(|(x, y)| x != y);
    format!("{} bytes against {}, first difference at {:?}", a.len(), b.len(), at)
}

/// The reference: one emission into a recording buffer.
fn reference(ctx: &mut Ctx, s: &dyn Subject) -> R<Option<Vec<u8>>> {
    let mut r = Recorder { default_zeros: true, ..Default::default() };
    match s.emit(&mut r) {
        Ok(()) => {
            if s.valid() == Some(false) {
                return violation("inexpressible-accepted", s.name());
            }
            if s.announces() {
                ensure!(
                    r.reserved.len() == 1 && r.reserved[0] == r.data.len() as u64 && r.writes_before_reserve == 0,
                    "announced-size",
                    "{}: announced {:?} ({} late), delivered {} bytes",
                    s.name(), r.reserved, r.writes_before_reserve, r.data.len()
                );
            }
            ctx.fold_bytes(&r.data);
            ctx.sig(fnv(&r.data));
            Ok(Some(r.data))
        }
        Err(e) => {
            if s.valid() == Some(true) {
                return violation("valid-description-refused", format!("{}: {e}", s.name()));
            }
            ctx.ev(|| format!("emission refused: {e}"));
            ctx.probe("emission_refused");
            Ok(None)
        }
    }
}

fn same(s: &dyn Subject, how: &str, got: &[u8], want: &[u8]) -> R {
    if got != want {
        return violation("sink-bytes", format!("{}: {how}: {}", s.name(), diff(got, want)));
    }
    Ok(())
}

/// Every kind of sink, in a drawn order.
fn c03_sinks(ctx: &mut Ctx) -> R {
    let s = subject(ctx)?;
    let s = &*s;
    let want = reference(ctx, s)?;
    for _ in 0..(2 + ctx.c.below(5)) {
        let kind = ctx.c.below(7);
        ctx.ev(|| format!("sink kind {kind}"));
        match kind {
            0 => {
                let mut v = if ctx.c.chance(1, 2) { Vec::new() } else { Vec::with_capacity(ctx.c.size(1 << 16) as usize) };
                let r = s.emit(&mut v);
                outcome(s, "vector", &r, &want)?;
                if let Some(w) = &want {
                    same(s, "vector", &v, w)?;
                }
            }
            1 => {
                // a slice of exactly the size, or larger with a guard behind
                let extra = ctx.c.size(64) as usize;
                let n = want.as_ref().map(|w| w.len()).unwrap_or(100_000);
                let mut v = vec![0xa5u8; n + extra];
                let mut sl: &mut [u8] = &mut v;
                let r = s.emit(&mut sl);
                outcome(s, "slice", &r, &want)?;
                if let Some(w) = &want {
                    ensure!(sl.len() == extra, "sink-bytes", "{}: slice advanced to {} left, expected {extra}", s.name(), sl.len());
                    same(s, "slice", &v[..n], w)?;
                    ensure!(v[n..].iter().all(|x| *x == 0xa5), "sink-bytes", "{}: bytes after the file in a slice were touched", s.name());
                }
            }
            2 => {
                let mut r = Recorder::default();
                let mut c = CountingBuffer::new(&mut r);
                let res = s.emit(&mut c);
                let n = c.count();
                outcome(s, "counting buffer", &res, &want)?;
                if let Some(w) = &want {
                    same(s, "counting buffer", &r.data, w)?;
                    ensure!(n == w.len() as u64, "announced-size", "{}: counted {n} of {}", s.name(), w.len());
                    if s.announces() {
                        ensure!(r.reserved == [n], "announced-size", "{}: announced {:?}, delivered {n}", s.name(), r.reserved);
                    }
                }
            }
            3 | 4 => {
                // stream, unbuffered or buffered, with short and interrupted writes
                let cfg = splitting(ctx);
                let mut sink = SimSink::new(ctx, cfg);
                let res = match kind {
                    3 => {
                        let mut b = StreamingBuffer::new(&mut sink);
                        let r = s.emit(&mut b);
                        r.and_then(|_| b.result().map_err(|e| e.to_string()))
                    }
                    _ => {
                        let cap = *ctx.c.pick(&[1usize, 7, 64, 512, 8192]);
                        let mut b = StreamingBuffer::new(io::BufWriter::with_capacity(cap, &mut sink));
                        let r = s.emit(&mut b);
                        r.and_then(|_| b.flush().map_err(|e| e.to_string()))
                    }
                };
                outcome(s, "stream", &res, &want)?;
                if let Some(w) = &want {
                    same(s, "stream", &sink.data, w)?;
                }
            }
            _ => {
                let cfg = splitting(ctx);
                let mut sink = SimSink::new(ctx, cfg);
                let r = if kind == 5 {
                    s.stream(&mut sink)
                } else {
                    let cap = *ctx.c.pick(&[1usize, 7, 64, 512, 8192]);
                    let mut b = io::BufWriter::with_capacity(cap, &mut sink);
                    s.stream(&mut b)
                };
                let Some(r) = r else { continue };
                let r = r.map_err(|e| e.to_string());
                outcome(s, "write_stream", &r, &want)?;
                if let Some(w) = &want {
                    same(s, "write_stream", &sink.data, w)?;
                    ensure!(sink.flushes > 0 || kind != 5, "not-flushed", "{}: the stream was not flushed", s.name());
                }
            }
        }
    }
    Ok(())
}

fn outcome(s: &dyn Subject, how: &str, r: &Result<(), String>, want: &Option<Vec<u8>>) -> R {
    ensure!(
        r.is_ok() == want.is_some(),
        "sink-outcome",
        "{}: {how}: {:?} although the reference emission {}",
        s.name(), r, if want.is_some() { "succeeded" } else { "failed" }
    );
    Ok(())
}

fn splitting(ctx: &mut Ctx) -> SinkCfg {
    SinkCfg {
        short: *ctx.c.pick(&[0, 8, 32, 64]),
        eintr: *ctx.c.pick(&[0, 2, 16]),
        one_byte: ctx.c.chance(1, 8),
        fail_at: u64::MAX,
        fail_kind: FailKind::None,
        flush_fail: false,
    }
}

fn c04_failing(ctx: &mut Ctx) -> R {
    let s = subject(ctx)?;
    let s = &*s;
    let Some(want) = reference(ctx, s)? else { return Ok(()) };
    let n = want.len() as u64;
    for _ in 0..(1 + ctx.c.below(6)) {
        if s.announces() && ctx.c.chance(1, 4) {
            too_small(ctx, s, &want)?;
        } else {
            let at = match ctx.c.below(4) {
                0 => n - 1 - ctx.c.below(n.min(16)),
                1 => ctx.c.below(n.min(64)),
                _ => ctx.c.below(n),
            };
            failing_stream(ctx, s, &want, at)?;
        }
        if ctx.c.chance(1, 2) {
            let mut v = Vec::new();
            let r = s.emit(&mut v);
            ensure!(r.is_ok() && v == want, "retry-differs", "{}: after a failed emission: {r:?}, {}", s.name(), diff(&v, &want));
        }
    }
    let mut v = Vec::new();
    let r = s.emit(&mut v);
    ensure!(r.is_ok() && v == want, "retry-differs", "{}: after failed emissions: {r:?}, {}", s.name(), diff(&v, &want));
    Ok(())
}

fn too_small(ctx: &mut Ctx, s: &dyn Subject, want: &[u8]) -> R {
    if ctx.c.chance(1, 2) {
        let short = 1 + ctx.c.below((want.len() as u64).min(4000)) as usize;
        let mut v = vec![0x5au8; want.len() - short.min(want.len())];
        ctx.fault("sink_too_small");
        let mut sl: &mut [u8] = &mut v;
        let r = s.emit(&mut sl);
        ensure!(r.is_err(), "failure-not-reported", "{}: a slice {short} bytes too small was accepted", s.name());
        ensure!(v.iter().all(|b| *b == 0x5a), "bytes-after-failure", "{}: bytes delivered to a slice that is too small", s.name());
    } else {
        ctx.fault("reserve_refused");
        let mut r = Recorder { refuse: true, ..Default::default() };
        let res = s.emit(&mut r);
        ensure!(res.is_err(), "failure-not-reported", "{}: refused announcement was ignored", s.name());
        ensure!(r.data.is_empty(), "bytes-after-failure", "{}: {} bytes delivered after a refused announcement", s.name(), r.data.len());
    }
    Ok(())
}

fn failing_stream(ctx: &mut Ctx, s: &dyn Subject, want: &[u8], at: u64) -> R {
    let kind = *ctx.c.pick(&[FailKind::Full, FailKind::Eio, FailKind::Zero, FailKind::Transient]);
    let flush_fail = ctx.c.chance(1, 6);
    let mut cfg = splitting(ctx);
    if !flush_fail {
        cfg.fail_at = at;
        cfg.fail_kind = kind;
    }
    cfg.flush_fail = flush_fail;
    let own = ctx.c.chance(1, 2);
    let cap = *ctx.c.pick(&[0usize, 0, 1, 64, 8192, 1 << 20]);
    ctx.ev(|| format!("stream failing at {at} of {} {kind:?} flush_fail {flush_fail} own {own} buffer {cap}", want.len()));
    let mut sink = SimSink::new(ctx, cfg);
    let r: Option<Result<(), Box<dyn std::error::Error>>> = match (own, cap) {
        (true, 0) => s.stream(&mut sink),
        (true, _) => {
            let mut b = io::BufWriter::with_capacity(cap, &mut sink);
            let r = s.stream(&mut b);
            // what a process that saw the failure would do: not write the rest
            let _ = b.into_parts();
            r
        }
        (false, 0) => {
            let mut b = StreamingBuffer::new(&mut sink);
            let r = s.emit(&mut b);
            Some(r.map_err(|e| e.into()).and_then(|_| b.flush().map_err(|e| e.into())))
        }
        (false, _) => {
            let mut b = StreamingBuffer::new(io::BufWriter::with_capacity(cap, &mut sink));
            let r = s.emit(&mut b);
            let r = r.map_err(|e| e.into()).and_then(|_| b.flush().map_err(|e| e.into()));
            let _ = b.into_inner().into_parts();
            Some(r)
        }
    };
    let Some(r) = r else { return Ok(()) };
    let what = format!("{}: stream failing at {at} of {} ({kind:?}, flush {flush_fail}, own {own}, buffer {cap})", s.name(), want.len());
    match r {
        Ok(()) => return violation("failure-not-reported", what),
        Err(e) => {
            let got = e.downcast_ref::<io::Error>().map(|e| (e.raw_os_error(), e.kind()));
            let Some((code, k)) = got else {
                return violation("wrong-error", format!("{what}: reported `{e}`, which is not the stream's error"));
            };
            match sink.fail_code {
                Some(c) => ensure!(code == Some(c), "wrong-error", "{what}: reported {code:?} {k:?}, the stream failed with {c}"),
                None => ensure!(k == io::ErrorKind::WriteZero, "wrong-error", "{what}: reported {code:?} {k:?}"),
            }
        }
    }
    ensure!(want.starts_with(&sink.data), "not-a-prefix", "{what}: the {} bytes accepted are no prefix of the file", sink.data.len());
    ensure!(sink.calls_after_failure == 0, "bytes-after-failure", "{what}: {} further write calls", sink.calls_after_failure);
    if flush_fail {
        ensure!(sink.data == want, "not-a-prefix", "{what}: only {} bytes before the flush", sink.data.len());
    }
    Ok(())
}

/// Every byte position of one small file as the point of failure.
fn c04_sweep(ctx: &mut Ctx) -> R {
    let b = describe_object(ctx, 6, 0)?.0;
    let s = ObjSubject(b);
    let Some(want) = reference(ctx, &s)? else { return Ok(()) };
    if want.len() > 6000 {
        return Ok(());
    }
    let step = 1 + want.len() as u64 / 600;
    let mut at = ctx.c.below(step);
    while at < want.len() as u64 {
        failing_stream(ctx, &s, &want, at)?;
        at += step;
    }
    let mut v = Vec::new();
    let r = s.emit(&mut v);
    ensure!(r.is_ok() && v == want, "retry-differs", "{}: after failed emissions: {r:?}, {}", s.name(), diff(&v, &want));
    Ok(())
}

/// Describe the same thing again elsewhere: another process image (thread, hash seed, heap).
fn again(t: Target, ops: &[(Op, Done)], seed: u64, skip_refused: bool, emit_between: u64) -> Result<Result<Vec<u8>, String>, String> {
    let r = env::with_hash_seed(seed, 8 << 20, || {
        let mut junk: Vec<Vec<u8>> = Vec::new();
        let mut b = Builder::new(t);
        for (i, (op, d)) in ops.iter().enumerate() {
            if skip_refused && matches!(d, Done::Refused(_)) {
                b.zero_place(op);
                continue;
            }
            junk.push(vec![0; (seed as usize >> (i % 16)) % 300]);
            if i % 3 == 0 {
                junk.truncate(1);
            }
            match b.apply(op) {
                Ok(Done::Refused(e)) if matches!(d, Done::Accepted) => return Err(format!("call {i} refused only here: {e}")),
                Ok(Done::Accepted) if matches!(d, Done::Refused(_)) => return Err(format!("call {i} accepted only here")),
                Ok(_) => {}
                Err(v) => return Err(format!("call {i}: {}", v.detail)),
            }
            if emit_between != 0 && (seed >> (i % 60)) & emit_between == emit_between {
                let _ = b.obj.write();
            }
        }
        Ok(b.obj.write().map_err(|e| e.to_string()))
    });
    match r {
        Ok(r) => r,
        Err(_) => Err("panicked".into()),
    }
}

fn c05_repeat(ctx: &mut Ctx) -> R {
    let inv = if ctx.c.chance(1, 4) { 6 } else { 0 };
    let (b, ops) = describe_object(ctx, 60, inv)?;
    let first = b.obj.write().map_err(|e| e.to_string());
    if let Ok(v) = &first {
        ctx.fold_bytes(v);
        ctx.sig(fnv(v));
    }
    let second = b.obj.write().map_err(|e| e.to_string());
    ensure!(first == second, "emission-not-repeatable", "{}: second emission: {}", b.t.name(), cmp(&first, &second));
    for _ in 0..(1 + ctx.c.below(3)) {
        let seed = ctx.c.u64();
        ctx.fault("other_hash_seed");
        let between = *ctx.c.pick(&[0u64, 0, 3, 1]);
        let r = again(b.t, &ops, seed, false, between);
        match r {
            Err(e) => return violation("description-not-repeatable", format!("{}: {e}", b.t.name())),
            Ok(r) => {
                ensure!(r == first, "emission-not-repeatable", "{}: described again with hash seed {seed:#x}: {}", b.t.name(), cmp(&first, &r));
            }
        }
    }
    Ok(())
}

fn cmp(a: &Result<Vec<u8>, String>, b: &Result<Vec<u8>, String>) -> String {
    match (a, b) {
        (Ok(a), Ok(b)) => diff(b, a),
        (a, b) => format!("{:?} against {:?}", b.as_ref().map(|x| x.len()), a.as_ref().map(|x| x.len())),
    }
}

/// Histories with refused requests and failed emissions, compared with the history without them.
fn c09_history(ctx: &mut Ctx) -> R {
    let t = Target::pick(&mut ctx.c);
    let inv = *ctx.c.pick(&[3, 6, 15]);
    let o = GenOpts { max_ops: 50, relocs: true, invalid: inv };
    let mut b = Builder::new(t);
    let mut ops = Vec::new();
    ctx.ev(|| format!("target {}", t.name()));
    let n = 3 + ctx.c.size(50);
    for _ in 0..n {
        if ctx.c.chance(1, 6) {
            failing_emission(ctx, &b)?;
        }
        let Some(op) = describe::gen_op(&mut ctx.c, &b, &o) else { continue };
        describe::step(ctx, &mut b, op, &mut ops)?;
    }
    failing_emission(ctx, &b)?;
    let refused = ops.iter().filter(|o| matches!(o.1, Done::Refused(_))).count();
    ctx.fold(refused as u64);
    let got = b.obj.write().map_err(|e| e.to_string());
    let want = match again(t, &ops, 1, true, 0) {
        Ok(w) => w,
        Err(e) => return violation("refused-request-left-a-trace", format!("{}: {e}", t.name())),
    };
    ensure!(
        got == want,
        "refused-request-left-a-trace",
        "{}: {refused} refused requests and failed emissions: {}",
        t.name(), cmp(&want, &got)
    );
    if let Ok(v) = &got {
        ctx.fold_bytes(v);
        if refused > 0 {
            ctx.sig(fnv(v));
        }
        if describe::emit_problem(&b.t, &b.m).is_none() && ctx.c.chance(1, 4) {
            crate::sc_write::read_back(ctx, v, |f| verify::sections(&b, f))?;
        }
    }
    Ok(())
}

/// An emission that fails somewhere: at the announcement, in the stream, or for lack of memory.
fn failing_emission(ctx: &mut Ctx, b: &Builder) -> R {
    match ctx.c.below(4) {
        0 => {
            ctx.fault("reserve_refused");
            let mut r = Recorder { refuse: true, ..Default::default() };
            let _ = b.obj.emit(&mut r);
        }
        1 => {
            let mut cfg = splitting(ctx);
            cfg.fail_at = ctx.c.size(4000);
            cfg.fail_kind = *ctx.c.pick(&[FailKind::Full, FailKind::Eio, FailKind::Zero, FailKind::Transient]);
            let mut sink = SimSink::new(ctx, cfg);
            let _ = b.obj.write_stream(&mut sink);
        }
        2 => {
            // a full emission in the middle
            let _ = b.obj.write();
            ctx.probe("intermediate_emission");
        }
        _ => {
            ctx.fault("sink_too_small");
            let mut v = vec![0u8; ctx.c.size(100) as usize];
            let mut sl: &mut [u8] = &mut v;
            let r = b.obj.emit(&mut sl);
            let _ = r;
        }
    }
    Ok(())
}

pub fn props(v: &mut Vec<crate::runner::Prop>) {
    let p = |id, rule, scenarios| crate::runner::Prop {
        id, level: "exploration", rule, scenarios,
        real: &["src/write (all formats)", "src/build (ELF and Mach-O editors)", "src/write/util.rs sinks", "std::io::BufWriter"],
        stub: &["the output stream (simulated file with short, interrupted and failing writes)", "hash seeds (getrandom)"],
        assumptions: &[], quick_secs: 40, thorough_secs: 600,
    };
    v.push(p("C03", "distinct emitted files delivered to two to six drawn sinks each", vec![("sinks", 1, c03_sinks as _)]));
    v.push(p(
        "C04", "distinct emitted files delivered to failing sinks", vec![("failing", 8, c04_failing as _), ("sweep", 1, c04_sweep as _)],
    ));
    v.push(p("C05", "distinct emitted files described again under other hash seeds and emission histories", vec![("repeat", 1, c05_repeat as _)]));
    v.push(p("C09", "distinct files emitted after histories with at least one refused request", vec![("history", 1, c09_history as _)]));
}
