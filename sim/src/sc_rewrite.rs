//! C18: the rewriting library applies exactly what is asked, or fails and says so.
use crate::choices::{Choices, fnv};
use crate::corpus::CORPUS;
use crate::ctx::{Ctx, R, violation};
use crate::describe;
use crate::elfmodel::*;
use crate::ensure;
use crate::env;
use crate::machomodel as mm;
use crate::sc_build as eb;
use crate::sc_macho as mb;
use crate::simio::{FailKind, SimSink, SinkCfg};
use object_rewrite::{ErrorKind, Options, Rewriter};

#[derive(Clone, Debug, Default)]
struct Req {
    del_syms: Vec<Vec<u8>>,
    ren_syms: Vec<(Vec<u8>, Vec<u8>)>,
    del_secs: Vec<Vec<u8>>,
    ren_secs: Vec<(Vec<u8>, Vec<u8>)>,
    debug: bool,
    delete_runpath: bool,
    set_runpath: Option<Vec<u8>>,
    add_runpath: Vec<Vec<u8>>,
    use_runpath: bool,
    use_rpath: bool,
    del_needed: Vec<Vec<u8>>,
    ren_needed: Vec<(Vec<u8>, Vec<u8>)>,
    add_needed: Vec<Vec<u8>>,
    soname: Option<Vec<u8>>,
    interp: Option<Vec<u8>>,
}

/// One step of a request, in the documented order.
const STEPS: usize = 15;

impl Req {
    fn step(&self, k: usize) -> Req {
        let mut r = Req::default();
        let s = self.clone();
        match k {
            0 => r.del_syms = s.del_syms,
            1 => r.ren_syms = s.ren_syms,
            2 => r.del_secs = s.del_secs,
            3 => r.ren_secs = s.ren_secs,
            4 => r.debug = s.debug,
            5 => r.delete_runpath = s.delete_runpath,
            6 => r.set_runpath = s.set_runpath,
            7 => r.add_runpath = s.add_runpath,
            8 => r.use_runpath = s.use_runpath,
            9 => r.use_rpath = s.use_rpath,
            10 => r.del_needed = s.del_needed,
            11 => r.ren_needed = s.ren_needed,
            12 => r.add_needed = s.add_needed,
            13 => r.soname = s.soname,
            _ => r.interp = s.interp,
        }
        r
    }

    fn options(&self) -> Options {
        let s = self.clone();
        let mut o = Options::default();
        o.delete_symbols = s.del_syms.into_iter().collect();
        o.rename_symbols = s.ren_syms.into_iter().collect();
        o.delete_sections = s.del_secs.into_iter().collect();
        o.rename_sections = s.ren_secs.into_iter().collect();
        o.elf.add_dynamic_debug = s.debug;
        o.elf.delete_runpath = s.delete_runpath;
        o.elf.set_runpath = s.set_runpath;
        o.elf.add_runpath = s.add_runpath;
        o.elf.use_runpath = s.use_runpath;
        o.elf.use_rpath = s.use_rpath;
        o.elf.delete_needed = s.del_needed.into_iter().collect();
        o.elf.replace_needed = s.ren_needed.into_iter().collect();
        o.elf.add_needed = s.add_needed;
        o.elf.set_soname = s.soname;
        o.elf.set_interpreter = s.interp;
        o
    }

    /// Does it ask for something that only ELF files have?
    fn elf_only(&self) -> bool {
        (4..STEPS).any(|k| format!("{:?}", self.step(k)) != format!("{:?}", Req::default()))
    }
}

fn name(c: &mut Choices) -> Vec<u8> {
    let mut n = describe::name(c, 60);
    n.retain(|b| *b != 0);
    if n.is_empty() {
        n.push(b'e');
    }
    n
}

fn dedup(v: &mut Vec<(Vec<u8>, Vec<u8>)>) {
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.0.clone()));
}

/// A name out of a list, or another.
fn known(c: &mut Choices, l: &[Vec<u8>]) -> Vec<u8> {
    if l.is_empty() || c.chance(1, 8) { name(c) } else { l[c.idx(l.len())].clone() }
}

fn draw(c: &mut Choices, syms: &[Vec<u8>], secs: &[Vec<u8>], libs: &[Vec<u8>], elf: u64) -> Req {
    let mut r = Req::default();
    // few of the options at a time
    for _ in 0..c.below(4) {
        let k = if elf > 0 { c.below(4 + elf) } else { c.below(4) };
        match k {
            0 => {
                for _ in 0..1 + c.below(3) {
                    r.del_syms.push(known(c, syms));
                }
            }
            1 => {
                for _ in 0..1 + c.below(3) {
                    let to = match c.below(8) {
                        0 => known(c, syms),
                        1 => Vec::new(),
                        _ => name(c),
                    };
                    r.ren_syms.push((known(c, syms), to));
                }
            }
            2 => {
                for _ in 0..1 + c.below(2) {
                    r.del_secs.push(known(c, secs));
                }
            }
            3 => {
                for _ in 0..1 + c.below(3) {
                    let mut to = if c.chance(1, 6) { known(c, secs) } else { name(c) };
                    if elf == 0 && c.chance(3, 4) {
                        to.truncate(16);
                    }
                    r.ren_secs.push((known(c, secs), to));
                }
            }
            4 => r.debug = true,
            5 => r.delete_runpath = true,
            6 => r.set_runpath = Some(if c.chance(1, 8) { Vec::new() } else { name(c) }),
            7 => {
                for _ in 0..1 + c.below(3) {
                    r.add_runpath.push(name(c));
                }
            }
            8 => r.use_runpath = true,
            9 => r.use_rpath = true,
            10 => r.del_needed.push(known(c, libs)),
            11 => r.ren_needed.push((known(c, libs), if c.chance(1, 6) { known(c, libs) } else { name(c) })),
            12 => {
                for _ in 0..1 + c.below(3) {
                    r.add_needed.push(if c.chance(1, 4) { known(c, libs) } else { name(c) });
                }
            }
            13 => r.soname = Some(name(c)),
            _ => {
                let mut n = if c.chance(1, 8) { Vec::new() } else { name(c) };
                if c.chance(1, 3) {
                    n.push(0);
                }
                r.interp = Some(n);
            }
        }
    }
    dedup(&mut r.ren_syms);
    dedup(&mut r.ren_secs);
    dedup(&mut r.ren_needed);
    r
}

const NEEDED: u64 = 1;
const SONAME: u64 = 14;
const RPATH: u64 = 15;
const DEBUG: u64 = 21;
const RUNPATH: u64 = 29;

/// The section that a segment of this type names.
fn seg_sec(m: &Model, ty: u32) -> Option<usize> {
    let g = m.segs.iter().find(|g| g.ty == ty)?;
    m.secs.iter().position(|s| !s.added && m.in_seg(s, g))
}

fn map<'a>(l: &'a [(Vec<u8>, Vec<u8>)], n: &[u8]) -> Option<&'a Vec<u8>> {
    l.iter().find(|x| x.0 == n).map(|x| &x.1)
}

/// What the request means. An error: it cannot be applied.
fn apply_elf(q: &Req, m: &mut Model) -> Result<(), &'static str> {
    for s in m.syms.iter_mut().chain(&mut m.dyns) {
        s.deleted |= q.del_syms.contains(&s.name);
    }
    for s in m.syms.iter_mut().chain(&mut m.dyns) {
        if let Some(n) = map(&q.ren_syms, &s.name) {
            s.name = n.clone();
        }
    }
    for s in &mut m.secs {
        s.deleted |= q.del_secs.contains(&s.name);
    }
    for s in &mut m.secs {
        if let Some(n) = map(&q.ren_secs, &s.name) {
            s.name = n.clone();
        }
    }
    let at = seg_sec(m, 2);
    let mut none = Vec::new();
    let dynamic = match at.map(|i| &mut m.secs[i].kind) {
        Some(Kind::Dyn(v)) => v,
        _ if (4..14).any(|k| format!("{:?}", q.step(k)) != format!("{:?}", Req::default())) => return Err("there is no dynamic section"),
        _ => &mut none,
    };
    let path = |t: u64| t == RPATH || t == RUNPATH;
    if q.debug && !dynamic.iter().any(|d| d.0 == DEBUG) {
        dynamic.push((DEBUG, DVal::Int(0)));
    }
    if q.delete_runpath {
        dynamic.retain(|d| !path(d.0));
    }
    if let Some(p) = &q.set_runpath {
        let mut found = false;
        for d in dynamic.iter_mut().filter(|d| path(d.0)) {
            d.1 = DVal::Str(p.clone());
            found = true;
        }
        if !found {
            dynamic.push((RUNPATH, DVal::Str(p.clone())));
        }
    }
    if !q.add_runpath.is_empty() {
        let mut found = false;
        for d in dynamic.iter_mut().filter(|d| path(d.0)) {
            if let DVal::Str(s) = &mut d.1 {
                for p in &q.add_runpath {
                    if !s.is_empty() {
                        s.push(b':');
                    }
                    s.extend(p);
                }
                found = true;
            }
        }
        if !found {
            dynamic.push((RUNPATH, DVal::Str(q.add_runpath.join(&b':'))));
        }
    }
    for d in dynamic.iter_mut() {
        if q.use_runpath && d.0 == RPATH {
            d.0 = RUNPATH;
        }
    }
    for d in dynamic.iter_mut() {
        if q.use_rpath && d.0 == RUNPATH {
            d.0 = RPATH;
        }
    }
    dynamic.retain(|d| d.0 != NEEDED || !matches!(&d.1, DVal::Str(s) if q.del_needed.contains(s)));
    for d in dynamic.iter_mut().filter(|d| d.0 == NEEDED) {
        if let DVal::Str(s) = &mut d.1 {
            if let Some(n) = map(&q.ren_needed, s) {
                *s = n.clone();
            }
        }
    }
    let listed: Vec<Vec<u8>> = dynamic.iter().filter_map(|d| if let (NEEDED, DVal::Str(s)) = d { Some(s.clone()) } else { None }).collect();
    let new: Vec<_> = q.add_needed.iter().filter(|n| !listed.contains(n)).map(|n| (NEEDED, DVal::Str(n.clone()))).collect();
    dynamic.splice(0..0, new);
    if let Some(n) = &q.soname {
        let mut found = false;
        for d in dynamic.iter_mut().filter(|d| d.0 == SONAME) {
            d.1 = DVal::Str(n.clone());
            found = true;
        }
        if !found {
            dynamic.push((SONAME, DVal::Str(n.clone())));
        }
    }
    if let Some(n) = &q.interp {
        let Some(i) = seg_sec(m, 3) else { return Err("there is no interpreter") };
        let mut n = n.clone();
        if n.last().is_some_and(|b| *b != 0) {
            n.push(0);
        }
        match &mut m.secs[i].kind {
            Kind::Data(d) => *d = n,
            _ => return Err("the interpreter is not data"),
        }
    }
    Ok(())
}

fn apply_macho(q: &Req, m: &mut mm::Model) -> Result<(), &'static str> {
    for s in &mut m.syms {
        s.deleted |= q.del_syms.contains(&s.name);
    }
    for s in &mut m.syms {
        if let Some(n) = map(&q.ren_syms, &s.name) {
            s.name = n.clone();
        }
    }
    for s in &mut m.secs {
        s.deleted |= q.del_secs.iter().any(|n| n == mm::nul(&s.name));
    }
    for s in &mut m.secs {
        if let Some(n) = map(&q.ren_secs, mm::nul(&s.name)) {
            if n.len() > 16 {
                if s.deleted {
                    continue;
                }
                return Err("the section name is too long");
            }
            s.name = [0; 16];
            s.name[..n.len()].copy_from_slice(n);
        }
    }
    if q.elf_only() {
        return Err("not an ELF file");
    }
    Ok(())
}

/// How the request is made of the library.
#[derive(Clone, Copy, Debug)]
enum How {
    Once,
    Steps,
    /// through the single functions instead of the options
    Calls,
}

fn ask(w: &mut Rewriter<'_>, q: &Req, how: How) -> Result<(), object_rewrite::Error> {
    match how {
        How::Once => w.modify(q.options()),
        How::Steps => (0..STEPS).try_for_each(|k| w.modify(q.step(k).options())),
        How::Calls => {
            let o = q.options();
            if !o.delete_symbols.is_empty() {
                w.delete_symbols(&o.delete_symbols);
            }
            if !o.rename_symbols.is_empty() {
                w.rename_symbols(&o.rename_symbols);
            }
            if !o.delete_sections.is_empty() {
                w.delete_sections(&o.delete_sections);
            }
            if !o.rename_sections.is_empty() {
                w.rename_sections(&o.rename_sections)?;
            }
            let e = o.elf;
            if e.add_dynamic_debug {
                w.elf_add_dynamic_debug()?;
            }
            if e.delete_runpath {
                w.elf_delete_runpath()?;
            }
            if let Some(p) = e.set_runpath {
                w.elf_set_runpath(p)?;
            }
            if !e.add_runpath.is_empty() {
                w.elf_add_runpath(&e.add_runpath)?;
            }
            if e.use_runpath {
                w.elf_use_runpath()?;
            }
            if e.use_rpath {
                w.elf_use_rpath()?;
            }
            if !e.delete_needed.is_empty() {
                w.elf_delete_needed(&e.delete_needed)?;
            }
            if !e.replace_needed.is_empty() {
                w.elf_replace_needed(&e.replace_needed)?;
            }
            if !e.add_needed.is_empty() {
                w.elf_add_needed(&e.add_needed)?;
            }
            if let Some(n) = e.set_soname {
                w.elf_set_soname(n)?;
            }
            if let Some(n) = e.set_interpreter {
                w.elf_set_interpreter(n)?;
            }
            Ok(())
        }
    }
}

#[derive(Debug)]
enum Done {
    Written(Vec<u8>),
    /// could not be applied: nothing was written
    Modify(String),
    /// could not be laid out or expressed
    Write(String),
}

/// Make the request of a rewriter that writes to a simulated file.
fn run(ctx: &mut Ctx, tag: &str, data: &[u8], q: &Req, how: How, model: Option<&Model>) -> R<Done> {
    let mut w = match Rewriter::read(data) {
        Ok(w) => w,
        Err(e) => return violation("unreadable", format!("{tag}: cannot be read: {e}")),
    };
    if let Err(e) = ask(&mut w, q, how) {
        ensure!(e.kind() == ErrorKind::Modify, "error-kind", "{tag}: {e} is {:?}", e.kind());
        return Ok(Done::Modify(e.to_string()));
    }
    if let Some(m) = model {
        answers(tag, &w, m)?;
    }
    let cfg = SinkCfg { short: ctx.c.below(20), eintr: ctx.c.below(8), one_byte: ctx.c.chance(1, 6), fail_at: u64::MAX, ..Default::default() };
    let mut sink = SimSink::new(ctx, cfg);
    match w.write(&mut sink) {
        Ok(()) => Ok(Done::Written(sink.data)),
        Err(e) => {
            ensure!(matches!(e.kind(), ErrorKind::Write | ErrorKind::Modify), "error-kind", "{tag}: {e} is {:?}", e.kind());
            Ok(Done::Write(e.to_string()))
        }
    }
}

/// What the rewriter says before writing.
fn answers(tag: &str, w: &Rewriter<'_>, m: &Model) -> R {
    let none = Vec::new();
    let dynamic = match seg_sec(m, 2).map(|i| &m.secs[i].kind) {
        Some(Kind::Dyn(v)) => v,
        _ => &none,
    };
    let first = |f: &dyn Fn(u64) -> bool| {
        dynamic.iter().find_map(|d| match &d.1 {
            DVal::Str(s) if f(d.0) => Some(&s[..]),
            _ => None,
        })
    };
    let (got, want) = (w.elf_runpath(), first(&|t| t == RPATH || t == RUNPATH));
    ensure!(got == want, "answer", "{tag}: elf_runpath is {got:?}, not {want:?}");
    let (got, want) = (w.elf_soname(), first(&|t| t == SONAME));
    ensure!(got == want, "answer", "{tag}: elf_soname is {got:?}, not {want:?}");
    let got: Vec<&[u8]> = w.elf_needed().collect();
    let want: Vec<&[u8]> = dynamic.iter().filter_map(|d| if let (NEEDED, DVal::Str(s)) = d { Some(&s[..]) } else { None }).collect();
    ensure!(got == want, "answer", "{tag}: elf_needed is {got:?}, not {want:?}");
    let got = w.elf_interpreter();
    let want = seg_sec(m, 3).and_then(|i| if let Kind::Data(d) = &m.secs[i].kind { Some(&d[..]) } else { None });
    ensure!(got == want, "answer", "{tag}: elf_interpreter is {got:?}, not {want:?}");
    Ok(())
}

const PT_LOAD: u32 = 1;
const PT_DYNAMIC: u32 = 2;
const PT_INTERP: u32 = 3;
const PT_PHDR: u32 = 6;
const PT_TLS: u32 = 7;
const PT_RELRO: u32 = 0x6474_e552;
const TLS: u64 = 0x400;

fn nobits(s: &Sec) -> bool {
    s.ty == 8
}

/// Where things may be after sections have been moved: `e` is the model of the edits, with the places of the input.
fn moved_layout(tag: &str, e: &Model, o: &Model, out: &[u8]) -> R {
    let keep = eb::kept(e);
    let live: Vec<&Seg> = e.segs.iter().zip(&e.seg_deleted).filter(|(_, d)| !**d).map(|(g, _)| g).collect();
    let loads: Vec<&Seg> = o.segs.iter().filter(|g| g.ty == PT_LOAD).collect();
    let was: Vec<&&Seg> = live.iter().filter(|g| g.ty == PT_LOAD).collect();
    ensure!(loads.len() >= was.len(), "segments", "{tag}: {} PT_LOAD segments, not {}", loads.len(), was.len());
    for (a, b) in was.iter().zip(&loads) {
        ensure!(**a == *b, "load-segment", "{tag}: PT_LOAD {b:x?}, not {a:x?}");
    }
    let mut sorted = was.windows(2).all(|w| w[0].vaddr <= w[1].vaddr);
    for w in loads.windows(2) {
        sorted &= true;
        if sorted {
            ensure!(w[0].vaddr + w[0].memsz <= w[1].vaddr, "load-segment", "{tag}: PT_LOAD {:x?} then {:x?}", w[0], w[1]);
        }
    }
    for g in &loads {
        // the file may end before a segment that has lost sections
        let lost = g.offset + g.filesz > e.len
            || e.secs.iter().any(|s| s.deleted && e.in_seg(s, g))
            || keep.iter().zip(&o.secs).any(|(i, s)| s.size < e.secs[*i].size && e.in_seg(&e.secs[*i], g))
            || !keep.iter().map(|i| &e.secs[*i]).any(|s| !nobits(s) && e.in_seg(s, g) && s.offset + s.size >= g.offset + g.filesz);
        ensure!(g.filesz <= g.memsz && (lost || g.filesz == 0 || g.offset + g.filesz <= o.len), "load-segment", "{tag}: PT_LOAD {g:x?} in a file of {:x}", o.len);
        ensure!(g.align < 2 || g.offset % g.align == g.vaddr % g.align, "load-segment", "{tag}: PT_LOAD {g:x?} is not congruent");
    }
    // Sections in memory
    let covered = |s: &Sec, n: u64, l: &[&Seg]| {
        l.iter().any(|g| s.addr >= g.vaddr && s.addr + n <= g.vaddr + g.memsz && (nobits(s) || (s.offset >= g.offset && s.offset - g.offset == s.addr - g.vaddr && s.offset + n <= g.offset + g.filesz)))
    };
    let was: Vec<&Seg> = was.into_iter().copied().collect();
    let mut mem: Vec<(u64, u64, String)> = Vec::new();

    for (k, i) in keep.iter().enumerate() {
        let (a, b) = (&e.secs[*i], &o.secs[k]);
        if b.flags & ALLOC == 0 || b.flags & TLS != 0 && nobits(b) {
            continue;
        }
        if b.size > 0 && covered(a, a.size, &was) {
            ensure!(covered(b, b.size, &loads), "not-loaded", "{tag}: {} at {:x}+{:x} in memory, {:x} in the file, is not loaded", lossy(&b.name), b.addr, b.size, b.offset);
            let g = loads.iter().find(|g| b.addr >= g.vaddr && b.addr + b.size <= g.vaddr + g.memsz).unwrap();
            ensure!(b.flags & 1 == 0 || g.flags & 2 != 0 || b.addr == a.addr, "not-writable", "{tag}: {} is in {g:x?}", lossy(&b.name));
        }
        ensure!(b.align < 2 || a.addr % a.align.max(1) != 0 || b.addr % b.align == 0, "alignment", "{tag}: {} at {:x} with alignment {}", lossy(&b.name), b.addr, b.align);

        if b.size > 0 {
            mem.push((b.addr, b.size, lossy(&b.name)));
        }
    }
    let (eh, ph) = if o.h.is64 { (64u64, 56u64) } else { (52, 32) };
    let heads = [(0, eh, "the file header"), (o.h.phoff, ph * o.segs.len() as u64, "the program headers")];
    for (off, n, w) in heads {
        let at = |l: &[&Seg]| l.iter().find(|g| off >= g.offset && off < g.offset + g.filesz).map(|g| off - g.offset + g.vaddr);
        if let Some(a) = at(&was) {
            ensure!(at(&loads) == Some(a), "not-loaded", "{tag}: {w} at {:x?} in memory, not {a:x}", at(&loads));
            mem.push((a, n, w.to_string()));
            let g = loads.iter().find(|g| off >= g.offset && off < g.offset + g.filesz).unwrap();
            ensure!(off + n <= g.offset + g.filesz, "not-loaded", "{tag}: {w} does not fit in {g:x?}");
        }
    }
    mem.sort();
    let disjoint = e.segs.iter().any(|g| g.ty == PT_LOAD);
    for p in mem.windows(2) {
        ensure!(!disjoint || p[0].0 + p[0].1 <= p[1].0, "overlap", "{tag}: {} at {:x}+{:x} overlaps {} at {:x} in memory", p[0].2, p[0].0, p[0].1, p[1].2, p[1].0);
    }
    // Other segments
    let mut at = 0;
    for g in live.iter().filter(|g| g.ty != PT_LOAD) {
        let members: Vec<usize> = keep.iter().enumerate().filter(|(_, i)| !e.secs[**i].added && e.in_seg(&e.secs[**i], g)).map(|(k, _)| k).collect();
        if g.ty == PT_PHDR {
            let Some(p) = o.segs.iter().find(|x| x.ty == PT_PHDR) else { return violation("segments", format!("{tag}: PT_PHDR is gone")) };
            ensure!(
                p.offset == o.h.phoff && p.filesz == ph * o.segs.len() as u64 && p.memsz == p.filesz && p.vaddr == g.vaddr,
                "phdr-segment", "{tag}: PT_PHDR {p:x?} with {} program headers at {:x}", o.segs.len(), o.h.phoff
            );
            continue;
        }
        let same: Vec<&Seg> = o.segs.iter().filter(|x| x.ty == g.ty && x.flags == g.flags && x.align == g.align).collect();
        let untouched = members.iter().all(|k| o.secs[*k].addr == e.secs[keep[*k]].addr);
        if untouched {
            let j = o.segs.iter().skip(at).position(|x| x == *g || x.ty == g.ty && x.vaddr == g.vaddr && x.offset == g.offset && (x.filesz == g.filesz || (g.ty == PT_INTERP || g.ty == PT_DYNAMIC) && x.filesz > g.filesz && x.memsz == x.filesz));
            ensure!(j.is_some(), "segments", "{tag}: segment {g:x?} is not there unchanged: {same:x?}");
            at += j.unwrap() + 1;
        }
        for k in members {
            let s = &o.secs[k];
            // a section that the segment only touches is not part of it
            let w = &e.secs[keep[k]];
            let whole = w.addr >= g.vaddr && w.addr + w.size <= g.vaddr + g.memsz && (nobits(w) || w.offset >= g.offset && w.offset - g.offset == w.addr - g.vaddr && w.offset + w.size <= g.offset + g.filesz);
            if !whole || (g.ty == PT_TLS) != (w.flags & TLS != 0) {
                continue;
            }
            // one that has grown where it is may leave the end unprotected
            let n = if g.ty == PT_RELRO && s.addr == w.addr { s.size.min(w.size) } else { s.size };
            ensure!(
                same.iter().any(|x| s.addr >= x.vaddr && s.addr + n <= x.vaddr + x.memsz && (nobits(s) || (s.offset >= x.offset && s.offset - x.offset == s.addr - x.vaddr && s.offset + n <= x.offset + x.filesz))),
                "segment-cover", "{tag}: {} at {:x}+{:x} ({:x} in the file) was in a segment of type {:x}: {same:x?}", lossy(&s.name), s.addr, s.size, s.offset, g.ty
            );
            if g.ty == PT_INTERP || g.ty == PT_DYNAMIC {
                let x = o.segs.iter().find(|x| x.ty == g.ty).unwrap();
                ensure!(x.vaddr == s.addr && x.offset == s.offset && x.filesz >= s.size, "segment-cover", "{tag}: {x:x?} for {} at {:x}+{:x}", lossy(&s.name), s.addr, s.size);
                // a shorter path leaves the segment as long as it was: what follows the path must be zero
                let rest = out.get((x.offset + s.size) as usize..(x.offset + x.filesz) as usize);
                ensure!(g.ty != PT_INTERP || rest.is_some_and(|r| r.iter().all(|b| *b == 0)), "segment-cover", "{tag}: {x:x?} for {} of size {:x}", lossy(&s.name), s.size);
            }
        }
    }
    
    Ok(())
}

fn dyn_grew(before: &Model, after: &Model) -> bool {
    let n = |m: &Model| seg_sec(m, 2).map_or(0, |i| if let Kind::Dyn(v) = &m.secs[i].kind { v.len() as u64 + 1 } else { 0 });
    let room = seg_sec(before, 2).map_or(0, |i| before.secs[i].size / before.secs[i].entsize.max(1));
    n(after) > room
}

/// Names or lists that live in loaded tables may need more room.
fn tables_grew(q: &Req, before: &Model, after: &Model) -> bool {
    let _ = before;
    !q.ren_syms.is_empty() && !after.dyns.is_empty() || q.set_runpath.is_some() || !q.add_runpath.is_empty() || !q.ren_needed.is_empty() || !q.add_needed.is_empty() || q.soname.is_some() || q.interp.is_some()
        || !q.del_syms.is_empty() && !after.dyns.is_empty()
}

/// Do sections, none of which can move, overlap in the input?
fn stuck(m: &Model) -> bool {
    if m.segs.is_empty() {
        return false;
    }
    let mut v: Vec<(u64, u64)> = m
        .secs
        .iter()
        .filter(|s| !s.deleted && s.flags & ALLOC != 0 && !(nobits(s) && s.flags & TLS != 0))
        .map(|s| (s.addr, s.size))
        .collect();
    v.sort();
    v.windows(2).any(|w| w[0].0 + w[0].1 > w[1].0)
}

fn elf(ctx: &mut Ctx) -> R {
    let all = eb::models();
    let (n, d, m0) = &all[ctx.c.idx(all.len())];
    if ctx.c.chance(1, 4) {
        let mut d = d.to_vec();
        if let Some(m) = more_memory(ctx, &mut d, m0) {
            ctx.probe("more_memory");
            return elf_rounds(ctx, format!("{n} with more memory"), d, m);
        }
    }
    elf_rounds(ctx, n.to_string(), d.to_vec(), m0.clone())
}

/// The last segment gets more memory than it has in the file, as one with large uninitialised data has.
fn more_memory(ctx: &mut Ctx, d: &mut [u8], m: &Model) -> Option<Model> {
    let (k, g) = m.segs.iter().enumerate().filter(|(_, g)| g.ty == PT_LOAD).max_by_key(|(_, g)| g.vaddr)?;
    let by = ctx.c.below(0x20000);
    if !m.h.is64 && g.vaddr + g.memsz + by > 0x7fff_ffff || m.h.phoff == 0 {
        return None;
    }
    let end = g.vaddr + g.memsz;
    let w = if m.h.is64 { 8 } else { 4 };
    let mut put = |at: u64, v: u64| {
        let b = if m.h.be { v.to_be_bytes()[8 - w..].to_vec() } else { v.to_le_bytes()[..w].to_vec() };
        d[at as usize..at as usize + w].copy_from_slice(&b);
    };
    put(m.h.phoff + if m.h.is64 { 56 * k as u64 + 40 } else { 32 * k as u64 + 20 }, g.memsz + by);
    if let Some(i) = m.secs.iter().position(|s| nobits(s) && s.flags & (ALLOC | TLS) == ALLOC && s.addr + s.size == end) {
        put(m.shoff + (i as u64 + 1) * if m.h.is64 { 64 } else { 40 } + if m.h.is64 { 32 } else { 20 }, m.secs[i].size + by);
    }
    let n = Model::parse(d)?;
    if n.secs.iter().any(|s| nobits(s) && s.flags & (ALLOC | TLS) == ALLOC && s.addr >= g.vaddr && s.addr + s.size > end + by) {
        return None;
    }
    Some(n)
}

fn elf_generated(ctx: &mut Ctx) -> R {
    let g = if ctx.c.chance(1, 2) { eb::generated(ctx)? } else { eb::dynamic(ctx) };
    let Some(g) = g else { return Ok(()) };
    elf_rounds(ctx, g.0, g.1, g.2)
}

fn elf_rounds(ctx: &mut Ctx, n: String, mut data: Vec<u8>, mut m0: Model) -> R {
    for round in 0..1 + ctx.c.below(3) {
        let tag = format!("{n} round {round}");
        let syms: Vec<Vec<u8>> = m0.syms.iter().chain(&m0.dyns).map(|s| s.name.clone()).collect();
        let secs: Vec<Vec<u8>> = m0.secs.iter().map(|s| s.name.clone()).collect();
        let libs: Vec<Vec<u8>> = m0.secs.iter().flat_map(|s| if let Kind::Dyn(v) = &s.kind { &v[..] } else { &[] }).filter_map(|d| if let (NEEDED, DVal::Str(s)) = d { Some(s.clone()) } else { None }).collect();
        let k = if seg_sec(&m0, 2).is_some() || ctx.c.chance(1, 8) { 11 } else { 0 };
        let q = draw(&mut ctx.c, &syms, &secs, &libs, k);
        let how = *ctx.c.pick(&[How::Once, How::Steps, How::Calls]);
        ctx.ev(|| format!("{tag} {how:?} {q:?}"));
        let mut m = m0.clone();
        let possible = apply_elf(&q, &mut m);
        ctx.sig(fnv(format!("{n}{q:?}").as_bytes()));
        let got = run(ctx, &tag, &data, &q, how, if possible.is_ok() { Some(&m) } else { None })?;
        let out = match (got, possible) {
            (Done::Modify(_), Err(_)) => {
                ctx.probe("cannot_apply");
                return Ok(());
            }
            (Done::Modify(e), Ok(())) => return violation("refused", format!("{tag}: {e}")),
            (_, Err(w)) => return violation("inexpressible-accepted", format!("{tag}: done although {w}")),
            (Done::Write(err), Ok(())) => {
                eb::finalize(&mut m);
                let reason = eb::refusal(&m);
                ctx.ev(|| format!("refused: {err}"));
                let layout = err.contains("Overlapping immovable sections") || err.contains("Unsupported sh_offset");
                if layout {
                    ctx.probe("no_room");
                }
                let excuse = layout && (dyn_grew(&m0, &m) || tables_grew(&q, &m0, &m) || stuck(&m0));
                ensure!(reason.is_some() || excuse, "refused", "{tag}: {err}");
                ctx.probe("refused");
                return Ok(());
            }
            (Done::Written(out), Ok(())) => out,
        };
        eb::finalize(&mut m);
        if let Some(r) = eb::refusal(&m) {
            return violation("inexpressible-accepted", format!("{tag}: written although {r}"));
        }
        let Some(o) = Model::parse(&out) else { return violation("unreadable-output", format!("{tag}: the output is not a readable file")) };
        let segless = !m.segs.is_empty() && m.seg_deleted.iter().all(|d| *d);
        eb::compare(&tag, &m, &o, true).or_else(|v| if segless && v.class == "header" { Ok(()) } else { Err(v) })?;
        if !segless {
            moved_layout(&tag, &m, &o, &out)?;
        }
        let moved = eb::kept(&m).iter().zip(&o.secs).any(|(i, b)| m.secs[*i].flags & ALLOC != 0 && m.secs[*i].addr != b.addr);
        ctx.probe(if moved { "sections_moved" } else { "rewritten" });
        again(ctx, &tag, &data, &q, &out)?;
        (data, m0) = (out, o);
        if m0.secs.is_empty() || m0.secs.iter().any(|s| matches!(s.ty, 3 | 18) && matches!(s.kind, Kind::Data(_))) || m0.table(T::Dynsym).is_none() != m0.table(T::Dynstr).is_none() || m0.table(T::Symtab).is_some() && m0.table(T::Strtab).is_none() {
            return Ok(());
        }
    }
    Ok(())
}

/// The same request again: the same bytes, whatever the hash seeds; failures of the output are reported.
fn again(ctx: &mut Ctx, tag: &str, data: &[u8], q: &Req, out: &[u8]) -> R {
    if ctx.c.chance(1, 3) {
        let seed = ctx.c.u64();
        let r = env::with_hash_seed(seed, 1 << 20, || {
            let mut w = Rewriter::read(data).map_err(|e| e.to_string())?;
            w.modify(q.options()).map_err(|e| e.to_string())?;
            let mut v = Vec::new();
            w.write(&mut v).map_err(|e| e.to_string())?;
            Ok::<_, String>(v)
        });
        ctx.fault("other_hash_seed");
        match r {
            Ok(Ok(v)) => ensure!(v == out, "not-reproducible", "{tag}: the same request gave {} other bytes", v.len()),
            Ok(Err(e)) => return violation("not-reproducible", format!("{tag}: the same request failed: {e}")),
            Err(_) => return violation("not-reproducible", format!("{tag}: the same request panicked")),
        }
    }
    if ctx.c.chance(1, 2) {
        let kind = *ctx.c.pick(&[FailKind::Full, FailKind::Eio, FailKind::Zero, FailKind::Transient]);
        let at = if ctx.c.chance(1, 4) { out.len() as u64 - 1 - ctx.c.below(64.min(out.len() as u64)) } else { ctx.c.below(out.len() as u64) };
        let cfg = SinkCfg { short: ctx.c.below(20), eintr: ctx.c.below(8), one_byte: false, fail_at: at, fail_kind: kind, flush_fail: false };
        let Ok(mut w) = Rewriter::read(data) else { return violation("unreadable", format!("{tag}: cannot be read again")) };
        if let Err(e) = w.modify(q.options()) {
            return violation("not-reproducible", format!("{tag}: the same request failed: {e}"));
        }
        let mut sink = SimSink::new(ctx, cfg);
        let r = w.write(&mut sink);
        ensure!(sink.failed, "write-not-attempted", "{tag}: byte {at} of {} was never written", out.len());
        match r {
            Ok(()) => return violation("failure-not-reported", format!("{tag}: success although writing failed ({kind:?}) at {at} of {}", out.len())),
            Err(e) => {
                ensure!(matches!(e.kind(), ErrorKind::Io(_)), "error-kind", "{tag}: {e} is {:?}", e.kind());
                ensure!(out.starts_with(&sink.data), "not-a-prefix", "{tag}: what was written before the failure is not the beginning of the file");
            }
        }
    }
    Ok(())
}

fn macho(ctx: &mut Ctx) -> R {
    let (n, mut data, mut m0) = if ctx.c.chance(1, 3) {
        let Some(g) = mb::generated(ctx)? else { return Ok(()) };
        g
    } else {
        let all = mb::models();
        let (n, d, m) = &all[ctx.c.idx(all.len())];
        (n.to_string(), d.to_vec(), m.clone())
    };
    if m0.unsupported.is_some() {
        ensure!(Rewriter::read(&data).is_err(), "unsupported-accepted", "{n}: read although it has {:?}", m0.unsupported);
        return Ok(());
    }
    for round in 0..1 + ctx.c.below(3) {
        let tag = format!("{n} round {round}");
        let syms: Vec<Vec<u8>> = m0.syms.iter().map(|s| s.name.clone()).collect();
        let secs: Vec<Vec<u8>> = m0.secs.iter().map(|s| mm::nul(&s.name).to_vec()).collect();
        let k = if ctx.c.chance(1, 10) { 11 } else { 0 };
        let q = draw(&mut ctx.c, &syms, &secs, &[], k);
        let how = *ctx.c.pick(&[How::Once, How::Steps, How::Calls]);
        ctx.ev(|| format!("{tag} {how:?} {q:?}"));
        let mut m = m0.clone();
        let possible = apply_macho(&q, &mut m);
        ctx.sig(fnv(format!("{n}{q:?}").as_bytes()));
        let got = run(ctx, &tag, &data, &q, how, None)?;
        mb::finalize(&mut m);
        let reason = mb::refusal(&m);
        let out = match (got, possible) {
            (Done::Modify(_), Err(_)) => {
                ctx.probe("cannot_apply");
                return Ok(());
            }
            // a name too long for a section that is deleted
            (Done::Modify(_), Ok(())) if q.ren_secs.iter().any(|x| x.1.len() > 16 && q.del_secs.contains(&x.0)) => return Ok(()),
            (Done::Modify(e), Ok(())) => return violation("refused", format!("{tag}: {e}")),
            (_, Err(w)) => return violation("inexpressible-accepted", format!("{tag}: done although {w}")),
            (Done::Write(e), Ok(())) => {
                ensure!(reason.is_some(), "refused", "{tag}: {e}");
                ctx.probe("refused");
                return Ok(());
            }
            (Done::Written(out), Ok(())) => out,
        };
        if let Some((r, false)) = reason {
            return violation("inexpressible-accepted", format!("{tag}: written although {r}"));
        }
        let Some(o) = mm::Model::parse(&out) else { return violation("unreadable-output", format!("{tag}: the output is not a readable file")) };
        mb::compare(&tag, &m, &o)?;
        ctx.probe("rewritten");
        again(ctx, &tag, &data, &q, &out)?;
        (data, m0) = (out, o);
    }
    Ok(())
}

/// Anything that is not a file of the two formats, or a damaged one, is refused before anything is written.
fn others(ctx: &mut Ctx) -> R {
    let ours: Vec<_> = CORPUS.iter().filter(|(n, _)| n.starts_with("elf") || n.starts_with("macho")).collect();
    let (n, d) = if ctx.c.chance(3, 4) { *ours[ctx.c.idx(ours.len())] } else { CORPUS[ctx.c.idx(CORPUS.len())] };
    let mut data = d.to_vec();
    if ctx.c.chance(7, 8) {
        crate::sc_read::damage(ctx, &mut data, d, &[]);
    }
    ctx.sig(fnv(&data));
    let r = Rewriter::read(&data);
    let kind = object::read::FileKind::parse(&data[..]).map(|k| format!("{k:?}")).unwrap_or_default();
    let ours = matches!(&kind[..], "Elf32" | "Elf64" | "MachO32" | "MachO64");
    match r {
        Err(e) => {
            ensure!(e.kind() == ErrorKind::Parse, "error-kind", "{n}: {e} is {:?}", e.kind());
            ctx.probe("refused");
            Ok(())
        }
        Ok(_) if !ours => violation("wrong-format-accepted", format!("{n}: {kind}")),
        // what can be read of a damaged file need not be writable
        Ok(_) => {
            ctx.probe("accepted");
            Ok(())
        }
    }
}

pub fn props(v: &mut Vec<crate::runner::Prop>) {
    v.push(crate::runner::Prop {
        id: "C18",
        level: "exploration",
        rule: "distinct (file, request)",
        scenarios: vec![("elf", 4, elf as _), ("elf-generated", 1, elf_generated as _), ("macho", 2, macho as _), ("others", 1, others as _)],
        real: &["crates/rewrite/src", "src/build", "src/write/elf", "src/write/macho", "src/write/util.rs", "src/read/elf", "src/read/macho"],
        stub: &["the file written to (simulated sink)", "hash seeds (getrandom)"],
        assumptions: &["the command line tools around the library (option parsing, opening files) are not run"],
        quick_secs: 40,
        thorough_secs: 900,
    });
}
