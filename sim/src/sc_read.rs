//! Scenarios about reading: C01 (stream = memory), C02 (faulty stream), C13 (torn files), C14 (damaged files).
use crate::choices::fnv;
use crate::corpus::{CORPUS, SYNTH};
use crate::ctx::{Ctx, R, Violation, violation};
use crate::describe::{self, GenOpts, Target};
use crate::ensure;
use crate::env;
use crate::observe::{ERR, NONE, Obs, Q};
use crate::sc_emit::Subject;
use crate::simio::{SimRef, SimSource, SourceCfg, Src, World, raw_query, through_stream};
use crate::view::{VQ, View};
use object::read::{ReadCache, ReadRef};
use std::cell::RefCell;
use std::ops::Range;
use std::collections::{HashMap, HashSet};

pub struct Input {
    pub name: String,
    pub data: Vec<u8>,
}

/// A well-formed file of any kind.
pub fn input(ctx: &mut Ctx) -> R<Input> {
    input_of(ctx, 20)
}

/// A well-formed file whose tables agree with each other.
pub fn consistent(ctx: &mut Ctx) -> R<Input> {
    input_of(ctx, 10)
}

fn input_of(ctx: &mut Ctx, kinds: u64) -> R<Input> {
    let k = ctx.c.below(kinds);
    let i = match k {
        10..=16 => generated(ctx, k)?,
        17..=19 => {
            let (n, d) = SYNTH[ctx.c.idx(SYNTH.len())];
            Input { name: n.into(), data: d.to_vec() }
        }
        0..=6 => {
            let (n, d) = CORPUS[ctx.c.idx(CORPUS.len())];
            // big files are slow: take them less often
            if d.len() > 20_000 && ctx.c.chance(3, 4) {
                let (n, d) = CORPUS[ctx.c.idx(CORPUS.len())];
                Input { name: n.into(), data: d.to_vec() }
            } else {
                Input { name: n.into(), data: d.to_vec() }
            }
        }
        7 | 8 => {
            let t = Target::pick(&mut ctx.c);
            let o = GenOpts { max_ops: 30, relocs: true, invalid: 0 };
            let (b, _) = describe::build(ctx, t, &o)?;
            match b.obj.write() {
                Ok(data) => Input { name: format!("object {}", t.name()), data },
                Err(_) => Input { name: "empty".into(), data: Vec::new() },
            }
        }
        _ => {
            let p = crate::sc_pe::Plan::gen_plan(ctx);
            let mut data = Vec::new();
            let _ = p.emit(&mut data);
            Input { name: p.name(), data }
        }
    };
    ctx.ev(|| format!("input {} ({} bytes)", i.name, i.data.len()));
    ctx.fold_bytes(&i.data);
    Ok(i)
}

/// Files from the independent generators and from the low-level writers.
fn generated(ctx: &mut Ctx, k: u64) -> R<Input> {
    let (name, data) = match k {
        10 => ("generated ELF", crate::elfgen::elf(ctx)),
        11 => ("generated PE", crate::elfgen::pe(ctx, false)),
        12 => ("generated Mach-O", crate::elfgen::macho(ctx).data),
        13 => ("ELF writer", crate::sc_dyn::file(ctx)),
        14 => ("archive", crate::sc_archive::file(ctx)),
        16 => ("dyld cache", crate::sc_cache::file(ctx)),
        _ => ("compressed sections", crate::sc_compress::file(ctx)?),
    };
    // the giants among them have their own scenarios
    if data.len() > 150_000 || data.is_empty() {
        let (n, d) = CORPUS[ctx.c.idx(CORPUS.len())];
        return Ok(Input { name: n.into(), data: d.to_vec() });
    }
    Ok(Input { name: name.into(), data })
}

/// Memory that notes which ranges a reader asks for.
#[derive(Clone, Copy)]
pub struct Traced<'a> {
    pub data: &'a [u8],
    pub log: &'a RefCell<Vec<(u64, u64)>>,
}

impl<'a> Traced<'a> {
    fn note(&self, at: u64, n: u64) {
        let mut l = self.log.borrow_mut();
        if l.len() < 4096 && n > 0 {
            l.push((at, n));
        }
    }
}

impl<'a> ReadRef<'a> for Traced<'a> {
    fn len(self) -> Result<u64, ()> {
        Ok(self.data.len() as u64)
    }

    fn read_bytes_at(self, offset: u64, size: u64) -> Result<&'a [u8], ()> {
        let r = self.data.read_bytes_at(offset, size);
        if r.is_ok() {
            self.note(offset, size);
        }
        r
    }

    fn read_bytes_at_until(self, range: Range<u64>, delimiter: u8) -> Result<&'a [u8], ()> {
        let r = self.data.read_bytes_at_until(range.clone(), delimiter);
        if let Ok(b) = r {
            self.note(range.start, b.len() as u64);
        }
        r
    }
}

/// The ranges that opening the file and some drawn queries read.
fn aims(ctx: &mut Ctx, data: &[u8]) -> Vec<(u64, u64)> {
    let log = RefCell::new(Vec::new());
    if let Ok(v) = View::open(Traced { data, log: &log }, &[]) {
        let plan = v.plan();
        if ctx.c.chance(3, 4) {
            // what opening reads is in every file: aim at the tables behind
            log.borrow_mut().clear();
        }
        // tables, more often than the content of sections
        let tables: Vec<VQ> = plan.iter().copied().filter(|q| !matches!(q, VQ::Obj(Q::Section(_) | Q::SectionData(_) | Q::SectionByName(_) | Q::SymbolByIndex(_)))).collect();
        let from = if ctx.c.chance(3, 4) { &tables } else { &plan };
        for q in drawn_queries(ctx, from, 2) {
            let mut o = Obs::new(data.len());
            v.query(q, &mut o);
        }
    }
    let mut l = log.into_inner();
    l.sort();
    l.dedup();
    l
}

/// Random damage: bit flips, boundary values in aligned fields, splices, truncation.
/// With `aims`, half of the damage falls on ranges which a reader asks for.
pub fn damage(ctx: &mut Ctx, d: &mut Vec<u8>, other: &[u8], aims: &[(u64, u64)]) {
    let n = 1 + ctx.c.below(6);
    for _ in 0..n {
        if d.is_empty() {
            return;
        }
        let len = d.len();
        // headers and tables are near the start or the end of most files
        let at = match ctx.c.below(4) {
            0 => ctx.c.idx(len.min(64)),
            1 => ctx.c.idx(len.min(1024)),
            2 => len - 1 - ctx.c.idx(len.min(2048)),
            _ => ctx.c.idx(len),
        };
        let mut base = 0;
        let at = if !aims.is_empty() && ctx.c.chance(2, 3) {
            let (start, n) = *ctx.c.pick(aims);
            let off = match ctx.c.below(3) {
                0 => ctx.c.below(n.min(16)),
                1 => ctx.c.below(n.min(128)),
                _ => ctx.c.below(n),
            };
            base = (start as usize) % 8;
            ((start + off) as usize).min(len - 1)
        } else {
            at
        };
        match ctx.c.below(10) {
            0 | 1 => {
                let bit = ctx.c.below(8);
                d[at] ^= 1 << bit;
                ctx.fault("bit_flip");
            }
            2 => {
                d[at] = *ctx.c.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0xfe]);
                ctx.fault("byte_set");
            }
            3..=6 => {
                let w = *ctx.c.pick(&[2usize, 4, 4, 8]);
                let at = if at >= base { (at - base) / w * w + base } else { at };
                if at + w <= len {
                    let cur = {
                        let mut b = [0u8; 8];
                        b[..w].copy_from_slice(&d[at..at + w]);
                        u64::from_le_bytes(b)
                    };
                    let v: u64 = match ctx.c.below(12) {
                        0 => 0,
                        1 => u64::MAX,
                        2 => 1u64 << (w * 8 - 1),
                        3 => (1u64 << (w * 8 - 1)) - 1,
                        4 => len as u64,
                        5 => cur.wrapping_add(1),
                        6 => cur.wrapping_sub(1),
                        7 => cur.swap_bytes() >> (64 - 8 * w),
                        8 | 9 => ctx.c.below(16),
                        10 => ctx.c.below(64),
                        _ => ctx.c.below(len as u64 + 64),
                    };
                    let mut b = v.to_le_bytes();
                    if ctx.c.chance(1, 4) {
                        b[..w].reverse();
                    }
                    d[at..at + w].copy_from_slice(&b[..w]);
                    ctx.fault("field_set");
                }
            }
            7 => {
                let src: &[u8] = if ctx.c.chance(1, 2) { other } else { &d.clone() };
                if !src.is_empty() {
                    let n = (1 + ctx.c.below(64) as usize).min(src.len());
                    let from = ctx.c.idx(src.len() - n + 1);
                    let n = n.min(len - at);
                    let part = src[from..from + n].to_vec();
                    d[at..at + n].copy_from_slice(&part);
                    ctx.fault("splice");
                }
            }
            8 => {
                d.truncate(at);
                ctx.fault("truncation");
            }
            _ => {
                let n = (1 + ctx.c.below(512) as usize).min(len - at);
                d[at..at + n].fill(0);
                ctx.fault("zeroed_block");
            }
        }
    }
}

pub fn observe<'d, S: object::read::ReadRef<'d>>(v: &View<'d, S>, q: VQ, len: usize) -> R<Obs> {
    let mut o = Obs::new(len);
    v.query(q, &mut o);
    match o.overrun.take() {
        Some(m) => violation("endless", m),
        None => Ok(o),
    }
}

fn first_difference(a: &Obs, b: &Obs) -> String {
    for (x, y) in a.out.iter().zip(&b.out) {
        if x != y {
            return format!("stream {} = {}, memory {} = {}", x.0, x.1, y.0, y.1);
        }
    }
    format!("stream has {} observations, memory {}", a.out.len(), b.out.len())
}

pub fn compare(name: &str, q: VQ, got: &Obs, want: &Obs, weak: bool) -> R {
    if got.out == want.out {
        return Ok(());
    }
    if weak {
        return subset(name, q, got, want);
    }
    violation("stream-differs", format!("{name}: {q:?}: {}", first_difference(got, want)))
}

/// Lists that are compacted when items are missing: their positions carry no meaning.
fn positional(key: &str) -> Option<String> {
    let k = key.rsplit('.').next().unwrap_or(key);
    for p in ["smap[", "omap[", "omapf[", "export[", "import[", "expv[", "lib[", "comdat[", "comdats[", "comdatsec["] {
        if let Some(r) = k.strip_prefix(p) {
            return Some(format!("{}{p}]{}", &key[..key.len() - k.len()], r.split_once(']').map(|x| x.1).unwrap_or("")));
        }
    }
    None
}

/// Derived from several items: says nothing by itself when items are missing.
fn derived(key: &str) -> bool {
    let k = key.rsplit('.').next().unwrap_or(key);
    k.contains('@') || k == "nlist" || k == "symtab" || k == "dsymtab" || k == "relocmap" || k == "ar"
}

fn missing_marks(v: &str) -> bool {
    v == ERR || v == NONE || v.split([' ', '=', '(', ')', ',', '[', ']', ':']).any(|t| t == ERR || t == NONE || t == "None" || t == "Err")
}

/// Everything observed under faults is what the reference says, or says that something is missing.
fn subset(name: &str, q: VQ, got: &Obs, want: &Obs) -> R {
    let mut by_key: HashMap<&str, Vec<&str>> = HashMap::new();
    let mut by_list: HashMap<String, HashSet<&str>> = HashMap::new();
    for (k, v) in &want.out {
        by_key.entry(k).or_default().push(v);
        if let Some(l) = positional(k) {
            by_list.entry(l).or_default().insert(v);
        }
    }
    for (k, v) in &got.out {
        if derived(k) || missing_marks(v) {
            continue;
        }
        // these cannot report an error
        if (k.ends_with("entry") || k.ends_with("base")) && v == "0x0" {
            continue;
        }
        let ok = match positional(k) {
            Some(l) => by_list.get(&l).is_some_and(|s| s.contains(v.as_str())),
            None => by_key.get(k.as_str()).is_some_and(|s| s.contains(&v.as_str())),
        };
        if !ok {
            if let Some(sec) = k.strip_suffix("cdata").or(k.strip_suffix("udata")).or(k.strip_suffix("cfr")) {
                let gnu = format!("{sec}@gnu");
                if by_key.get(gnu.as_str()).is_some_and(|v| v == &["true"]) {
                    return violation("zdebug-name-unreadable", format!("{name}: {q:?}: {k} = {v}, without faults {:?}", by_key.get(k.as_str())));
                }
            }
            return violation(
                "wrong-answer-under-faults",
                format!("{name}: {q:?}: {k} = {v}, without faults {:?}", by_key.get(k.as_str())),
            );
        }
    }
    Ok(())
}

pub fn drawn_queries(ctx: &mut Ctx, plan: &[VQ], max: u64) -> Vec<VQ> {
    if plan.is_empty() {
        return Vec::new();
    }
    let n = 1 + ctx.c.below(max);
    (0..n).map(|_| plan[ctx.c.idx(plan.len())]).collect()
}

fn c01_views(ctx: &mut Ctx) -> R {
    let mut i = input(ctx)?;
    if ctx.c.chance(1, 4) {
        let other = CORPUS[ctx.c.idx(CORPUS.len())].1;
        damage(ctx, &mut i.data, other, &[]);
    }
    let mem = View::open(&i.data[..], &[]);
    let queries = match &mem {
        Ok(v) => drawn_queries(ctx, &v.plan(), 16),
        Err(_) => Vec::new(),
    };
    let len = i.data.len();
    let mut want = Vec::new();
    if let Ok(v) = &mem {
        for q in &queries {
            want.push(observe(v, *q, len)?);
        }
        ctx.probe(v.kind());
    }
    let cfg = SourceCfg::benign(ctx);
    // the whole stream, or a range of a larger one
    let embed = ctx.c.chance(1, 4);
    let check = |r: SimRef<'_>| -> R {
        let two = r.w.ctx().c.chance(1, 3);
        let a = View::open(r, &[]);
        let b = if two { Some(View::open(r, &[])) } else { None };
        let (ok, want_ok) = (a.is_ok(), mem.is_ok());
        ensure!(
            ok == want_ok || r.w.limited.get(),
            "stream-differs",
            "{}: opening through the stream {}, in memory {}",
            i.name, if ok { "succeeded" } else { "failed" }, if want_ok { "succeeded" } else { "failed" }
        );
        let (Ok(a), true) = (a, want_ok) else { return Ok(()) };
        let plan_ok = r.w.limited.get();
        for (n, q) in queries.iter().enumerate() {
            let v = match &b {
                Some(Ok(b)) if n % 2 == 1 => b,
                _ => &a,
            };
            let got = observe(v, *q, len)?;
            r.w.ctx().steps += got.out.len() as u64;
            r.w.take_mismatch()?;
            r.w.check_held()?;
            let weak = plan_ok || r.w.limited.get();
            r.w.ctx().sig(fnv(format!("{}{q:?}{}", i.name, r.w.io_ops.get()).as_bytes()));
            compare(&i.name, *q, &got, &want[n], weak)?;
        }
        Ok(())
    };
    if embed {
        let pre = ctx.c.size(200) as usize;
        let post = ctx.c.size(200) as usize;
        let mut outer = ctx.c.bytes(pre);
        outer.extend_from_slice(&i.data);
        let tail = ctx.c.bytes(post);
        outer.extend_from_slice(&tail);
        ctx.probe("range_of_a_larger_file");
        let w = World::new(ctx, &outer, cfg);
        let cache = ReadCache::new(SimSource::new(&w));
        let range = cache.range(pre as u64, len as u64);
        let r = check(SimRef { w: &w, src: Src::Range(range, pre as u64, len as u64) });
        w.take_mismatch()?;
        w.check_held()?;
        r
    } else {
        through_stream(ctx, &i.data, cfg, check)
    }
}

/// The byte-level interface of the cache, driven directly.
fn c01_raw(ctx: &mut Ctx) -> R {
    let n = ctx.c.size(9000) as usize;
    let mut data = ctx.c.bytes(n);
    // plenty of delimiters and repetition
    let z = ctx.c.below(40);
    for _ in 0..z {
        if n > 0 {
            let at = ctx.c.idx(n);
            data[at] = *ctx.c.pick(&[0, b'\n', b'/']);
        }
    }
    let cfg = SourceCfg::benign(ctx);
    let w = World::new(ctx, &data, cfg);
    let cache = ReadCache::new(SimSource::new(&w));
    let q = 1 + w.ctx().c.below(60);
    for _ in 0..q {
        raw_query(&w, Src::Cache(&cache));
        w.take_mismatch()?;
    }
    w.check_held()?;
    ctx.sig(w.io_ops.get() ^ fnv(&data));
    Ok(())
}

fn faulty_raw(ctx: &mut Ctx) -> R {
    let n = ctx.c.size(9000) as usize;
    let mut data = ctx.c.bytes(n);
    let z = ctx.c.below(40);
    for _ in 0..z {
        if n > 0 {
            let at = ctx.c.idx(n);
            data[at] = *ctx.c.pick(&[0, b'\n', b'/']);
        }
    }
    let cfg = SourceCfg::faulty(ctx);
    let w = World::new(ctx, &data, cfg);
    let cache = ReadCache::new(SimSource::new(&w));
    let q = 1 + w.ctx().c.below(60);
    for k in 0..q {
        if k == q / 2 && w.ctx().c.chance(1, 2) {
            // faults stop
            w.cfg.set(SourceCfg { preempt: cfg.preempt, ..Default::default() });
        }
        raw_query(&w, Src::Cache(&cache));
        w.take_mismatch()?;
    }
    w.check_held()?;
    ctx.sig(w.fired.get() << 32 ^ w.io_ops.get() ^ fnv(&data));
    Ok(())
}

fn c02_views(ctx: &mut Ctx) -> R {
    let i = input(ctx)?;
    let len = i.data.len();
    let Ok(mem) = View::open(&i.data[..], &[]) else { return Ok(()) };
    let queries = drawn_queries(ctx, &mem.plan(), 12);
    let mut want = Vec::new();
    for q in &queries {
        want.push(observe(&mem, *q, len)?);
    }
    let cfg = SourceCfg::faulty(ctx);
    through_stream(ctx, &i.data, cfg, |r| {
        let mut view = None;
        for _ in 0..6 {
            let f0 = r.w.fired.get();
            match View::open(r, &[]) {
                Ok(v) => {
                    view = Some(v);
                    break;
                }
                Err(e) => ensure!(
                    r.w.fired.get() != f0 || r.w.limited.get(),
                    "error-without-fault", "{}: opening failed without a fault: {e}", i.name
                ),
            }
        }
        let opened_clean = r.w.fired.get() == 0;
        if let Some(v) = &view {
            // a fault on the way may be taken for another kind of file only if it says so with less content
            for (q, want) in queries.iter().zip(&want) {
                if v.kind() != mem.kind() {
                    break;
                }
                let f0 = r.w.fired.get();
                let got = observe(v, *q, len)?;
                r.w.take_mismatch()?;
                let clean = opened_clean && r.w.fired.get() == f0;
                r.w.ctx().sig(fnv(format!("{}{q:?}{}", i.name, r.w.fired.get()).as_bytes()));
                compare(&i.name, *q, &got, want, !clean || r.w.limited.get())?;
            }
            ensure!(v.kind() == mem.kind(), "wrong-answer-under-faults", "{}: opened as {} instead of {}", i.name, v.kind(), mem.kind());
        }
        // The stream works again.
        r.w.cfg.set(SourceCfg { preempt: cfg.preempt, ..Default::default() });
        if opened_clean {
            if let Some(v) = &view {
                for (q, want) in queries.iter().zip(&want) {
                    let got = observe(v, *q, len)?;
                    r.w.take_mismatch()?;
                    compare(&i.name, *q, &got, want, r.w.limited.get()).map_err(after)?;
                }
            }
        }
        match View::open(r, &[]) {
            Ok(v) => {
                for (q, want) in queries.iter().zip(&want) {
                    let got = observe(&v, *q, len)?;
                    r.w.take_mismatch()?;
                    compare(&i.name, *q, &got, want, r.w.limited.get()).map_err(after)?;
                }
            }
            Err(e) if !r.w.limited.get() => return violation("harm-after-faults", format!("{}: opening after the faults: {e}", i.name)),
            Err(_) => {}
        }
        r.w.check_held()
    })
}

fn after(v: Violation) -> Violation {
    Violation { class: "harm-after-faults".into(), detail: v.detail }
}

/// A file of which only part survived a crash.
fn c13_torn(ctx: &mut Ctx) -> R {
    let i = input(ctx)?;
    let full = &i.data[..];
    if full.is_empty() {
        return Ok(());
    }
    let n = full.len() as u64;
    let Ok(mem) = View::open(full, &[]) else { return Ok(()) };
    let kind = mem.kind();
    let plan = mem.plan();
    let (torn, lost): (Vec<u8>, Vec<std::ops::Range<u64>>) = if ctx.c.chance(2, 3) {
        let at = match ctx.c.below(4) {
            0 => ctx.c.below(n.min(256)),
            1 => n - 1 - ctx.c.below(n.min(256)),
            2 => ctx.c.below(n) / 512 * 512,
            _ => ctx.c.below(n),
        };
        ctx.fault("crash_truncated");
        ctx.ev(|| format!("only {at} of {n} bytes are durable"));
        (full[..at as usize].to_vec(), Vec::new())
    } else {
        // whole blocks missing, the length already durable
        let bs = *ctx.c.pick(&[64u64, 512, 4096]);
        let mut t = full.to_vec();
        let mut lost = Vec::new();
        let blocks = n.div_ceil(bs);
        for _ in 0..(1 + ctx.c.below(3)) {
            let b = ctx.c.below(blocks);
            let (s, e) = (b * bs, ((b + 1) * bs).min(n));
            if ctx.c.chance(3, 4) {
                t[s as usize..e as usize].fill(0);
            } else {
                let junk = ctx.c.bytes((e - s) as usize);
                t[s as usize..e as usize].copy_from_slice(&junk);
            }
            lost.push(s..e);
            ctx.fault("crash_lost_block");
        }
        ctx.ev(|| format!("lost blocks {lost:?}"));
        (t, lost)
    };
    let cfg = SourceCfg::benign(ctx);
    let queries = drawn_queries(ctx, &plan, 16);
    let truncated = torn.len() as u64 != n;
    through_stream(ctx, &torn, cfg, |r| {
        r.w.full_len.set(n);
        *r.w.lost.borrow_mut() = lost.clone();
        let v = match View::open(r, &[]) {
            Ok(v) => v,
            Err(_) => {
                ensure!(
                    r.w.touched.get() || r.w.limited.get(),
                    "lost-without-reason", "{}: the remains do not open although nothing lost was read", i.name
                );
                r.w.ctx().probe("remains_do_not_open");
                return Ok(());
            }
        };
        let tainted = r.w.touched.get();
        if tainted && !truncated {
            // the headers themselves may be wrong: only no crash and no endless enumeration
            for q in v.plan().into_iter().take(30) {
                observe(&v, q, torn.len())?;
            }
            r.w.ctx().probe("remains_with_lost_headers");
            return Ok(());
        }
        ensure!(v.kind() == kind, "wrong-remains", "{}: remains open as {}", i.name, v.kind());
        for q in &queries {
            r.w.touched.set(tainted);
            let got = observe(&v, *q, torn.len())?;
            r.w.take_mismatch()?;
            let t = r.w.touched.get();
            if t && !truncated {
                continue;
            }
            // Every prefix of a Wasm file that ends between two sections is a Wasm file; symbols are then
            // made up from the imports.
            if t && kind == "wasm" && matches!(q, VQ::Obj(Q::Symbols(_) | Q::SymbolByIndex(_) | Q::SymbolMap | Q::ObjectMap)) {
                continue;
            }
            let want = observe(&mem, *q, full.len())?;
            r.w.ctx().sig(fnv(format!("{}{q:?}{}{lost:?}", i.name, torn.len()).as_bytes()));
            if r.w.limited.get() {
                continue;
            }
            compare(&i.name, *q, &got, &want, t).map_err(|v| Violation { class: "wrong-remains".into(), ..v })?;
        }
        Ok(())
    })
}

/// The largest uncompressed size that any compressed section declares.
fn declared(data: &[u8]) -> i64 {
    View::open(data, &[]).map(|v| declared_by(&v)).unwrap_or(0)
}

pub fn declared_by<'d, R: ReadRef<'d>>(v: &View<'d, R>) -> i64 {
    use object::{Object, ObjectSection};
    fn of<'d, O: Object<'d>>(f: &O) -> i64 {
        let sizes = f.sections().filter_map(|s| s.compressed_data().ok());
        sizes.filter(|c| c.format != object::CompressionFormat::None).map(|c| c.uncompressed_size.min(1 << 40) as i64).max().unwrap_or(0)
    }
    match v {
        View::Obj(_, f) => of(&**f),
        View::Dyld(_, c) => c.images().take(40).filter_map(|i| i.parse_object().ok().map(|f| of(&f))).max().unwrap_or(0),
        _ => 0,
    }
}

/// Many variants of damage to what one query reads: no panic, no endless work, bounded memory.
fn c14_focused(ctx: &mut Ctx) -> R {
    let i = input(ctx)?;
    let log = RefCell::new(Vec::new());
    let Ok(v) = View::open(Traced { data: &i.data, log: &log }, &[]) else { return Ok(()) };
    let plan = v.plan();
    if plan.is_empty() {
        return Ok(());
    }
    let tables: Vec<VQ> = plan.iter().copied().filter(|q| !matches!(q, VQ::Obj(Q::Section(_) | Q::SectionData(_) | Q::SectionByName(_) | Q::SymbolByIndex(_)))).collect();
    let q = if !tables.is_empty() && ctx.c.chance(7, 8) { tables[ctx.c.idx(tables.len())] } else { plan[ctx.c.idx(plan.len())] };
    if ctx.c.chance(7, 8) {
        log.borrow_mut().clear();
    }
    let mut o = Obs::new(i.data.len());
    v.query(q, &mut o);
    let mut aims = std::mem::take(&mut *log.borrow_mut());
    aims.sort();
    aims.dedup();
    if aims.is_empty() {
        return Ok(());
    }
    ctx.ev(|| format!("{} {q:?}: {} ranges", i.name, aims.len()));
    let bound = (i.data.len() as i64) * 40_000 + (64 << 20);
    for _ in 0..24 {
        let mut d = i.data.clone();
        for _ in 0..1 + ctx.c.below(2) {
            let (start, n) = *ctx.c.pick(&aims);
            let w = *ctx.c.pick(&[1u64, 2, 4, 4, 4, 8]);
            // tables begin with their headers
            let off = match ctx.c.below(4) {
                0 | 1 => ctx.c.below(n.min(16)),
                2 => ctx.c.below(n.min(128)),
                _ => ctx.c.below(n),
            } / w * w;
            let at = (start + off) as usize;
            let w = w as usize;
            if at + w > d.len() {
                continue;
            }
            let mut cur = [0u8; 8];
            cur[..w].copy_from_slice(&d[at..at + w]);
            let cur = u64::from_le_bytes(cur);
            let v = match ctx.c.below(12) {
                0 => u64::MAX,
                1 => 1u64 << (w * 8 - 1),
                2 => (1u64 << (w * 8 - 1)) - 1,
                3 => cur ^ 1 << ctx.c.below(w as u64 * 8),
                4 => cur.wrapping_add(1 + ctx.c.below(16)),
                5 => cur.wrapping_sub(1 + ctx.c.below(16)),
                6 => ctx.c.below(i.data.len() as u64 + 64),
                7 | 8 => ctx.c.below(8),
                9 => ctx.c.below(8) * 4,
                10 => ctx.c.below(128),
                _ => ctx.c.u64(),
            };
            let mut b = v.to_le_bytes();
            if w > 1 && ctx.c.chance(1, 4) {
                b[..w].reverse();
            }
            d[at..at + w].copy_from_slice(&b[..w]);
            ctx.fault("field_set");
        }
        ctx.sig(fnv(&d));
        let Ok(v) = View::open(&d[..], &[]) else {
            ctx.probe("does_not_open");
            continue;
        };
        env::mem_reset();
        let o = env::with_alloc_limit(1 << 28, || observe(&v, q, d.len()))?;
        let (peak, _) = env::mem_peak();
        let bound = if matches!(q, VQ::Obj(Q::SectionData(_)) | VQ::Part(_)) { bound.saturating_add(declared(&d)) } else { bound };
        ensure!(peak < bound, "unbounded-memory", "{}: {q:?} used {peak} bytes for a file of {}", i.name, d.len());
        ctx.steps += o.out.len() as u64;
    }
    Ok(())
}

/// Damaged files: no panic, no endless work, bounded memory, and all ways of reading agree.
fn c14_damaged(ctx: &mut Ctx) -> R {
    let mut i = input(ctx)?;
    let other = CORPUS[ctx.c.idx(CORPUS.len())].1;
    let a = if ctx.c.chance(3, 4) { aims(ctx, &i.data) } else { Vec::new() };
    damage(ctx, &mut i.data, other, &a);
    ctx.sig(fnv(&i.data));
    let len = i.data.len();
    let mem = View::open(&i.data[..], &[]);
    let stream = ctx.c.chance(1, 3);
    let Ok(v) = &mem else {
        ctx.probe("does_not_open");
        if stream {
            let cfg = SourceCfg::benign(ctx);
            return through_stream(ctx, &i.data, cfg, |r| {
                ensure!(View::open(r, &[]).is_err(), "sources-disagree", "{}: opens through a stream only", i.name);
                Ok(())
            });
        }
        return Ok(());
    };
    ctx.probe(v.kind());
    let plan = v.plan();
    let mut qs: Vec<VQ> = if plan.len() <= 120 { plan.clone() } else { drawn_queries(ctx, &plan, 120) };
    let bound = (len as i64) * 40_000 + (64 << 20);
    // A compressed section declares its size, which a caller can ask for before decompressing.
    let declared = declared(&i.data);
    let mut want = Vec::new();
    for q in &qs {
        env::mem_reset();
        let o = env::with_alloc_limit(1 << 28, || observe(v, *q, len))?;
        let (peak, _) = env::mem_peak();
        let bound = if matches!(q, VQ::Obj(Q::SectionData(_)) | VQ::Part(_)) { bound.saturating_add(declared) } else { bound };
        ensure!(peak < bound, "unbounded-memory", "{}: {q:?} used {peak} bytes for a file of {len}", i.name);
        ctx.steps += o.out.len() as u64;
        want.push(o);
    }
    if stream {
        let keep = 1 + ctx.c.idx(qs.len());
        qs.truncate(keep);
        let cfg = SourceCfg::benign(ctx);
        through_stream(ctx, &i.data, cfg, |r| match View::open(r, &[]) {
            Ok(v) => {
                for (q, want) in qs.iter().zip(&want) {
                    let got = env::with_alloc_limit(1 << 28, || observe(&v, *q, len))?;
                    r.w.take_mismatch()?;
                    compare(&i.name, *q, &got, want, r.w.limited.get())
                        .map_err(|v| Violation { class: "sources-disagree".into(), ..v })?;
                }
                Ok(())
            }
            Err(e) => {
                ensure!(r.w.limited.get(), "sources-disagree", "{}: opens in memory only: {e}", i.name);
                Ok(())
            }
        })?;
    }
    Ok(())
}

/// A damaged file is read for rewriting: the builders refuse it or take it in, without crashing.
fn c14_builder(ctx: &mut Ctx) -> R {
    let mut i = input(ctx)?;
    let macho = match object::FileKind::parse(&i.data[..]) {
        Ok(object::FileKind::Elf32 | object::FileKind::Elf64) => false,
        Ok(object::FileKind::MachO32 | object::FileKind::MachO64) => true,
        _ => return Ok(()),
    };
    let accepts = |d: Traced| if macho { object::build::macho::Builder::read(d).is_ok() } else { object::build::elf::Builder::read(d).is_ok() };
    let log = RefCell::new(Vec::new());
    accepts(Traced { data: &i.data, log: &log });
    let mut aims = log.into_inner();
    aims.sort();
    aims.dedup();
    let other = CORPUS[ctx.c.idx(CORPUS.len())].1;
    damage(ctx, &mut i.data, other, &aims);
    ctx.sig(fnv(&i.data));
    let log = RefCell::new(Vec::new());
    env::mem_reset();
    let ok = env::with_alloc_limit(1 << 28, || accepts(Traced { data: &i.data, log: &log }));
    let (peak, _) = env::mem_peak();
    let len = i.data.len() as i64;
    ensure!(peak < len * 40_000 + (64 << 20), "unbounded-memory", "{}: the builder used {peak} bytes for a file of {len}", i.name);
    ctx.probe(if ok { "builder_accepts" } else { "builder_refuses" });
    Ok(())
}

pub const READ_REAL: &[&str] = &["src/read (all formats)", "src/read/read_cache.rs", "src/read/read_ref.rs", "src/read/archive.rs"];
pub const READ_STUB: &[&str] = &["the stored file and its stream (simulated source under the real ReadCache)", "hash seeds (getrandom)", "failing byte-buffer allocations"];

pub fn props(v: &mut Vec<crate::runner::Prop>) {
    let p = |id, rule, scenarios| crate::runner::Prop {
        id, level: "exploration", rule, scenarios, real: READ_REAL, stub: READ_STUB, assumptions: &[], quick_secs: if id == "C14" { 80 } else { 45 }, thorough_secs: 900,
    };
    v.push(p("C01", "distinct (file, query, stream schedule)", vec![("views", 4, c01_views as _), ("raw", 1, c01_raw as _)]));
    v.push(p("C02", "distinct (file, query, fault history)", vec![("views", 4, c02_views as _), ("raw", 1, faulty_raw as _)]));
    v.push(p("C13", "distinct (file, query, torn remains)", vec![("torn", 1, c13_torn as _)]));
    v.push(p("C14", "distinct damaged files", vec![("damaged", 5, c14_damaged as _), ("focused", 5, c14_focused as _), ("builder", 1, c14_builder as _), ("cache", 1, crate::sc_cache::damaged as _)]));
}
