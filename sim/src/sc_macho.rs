//! C17: reading Mach-O files into the builder, changing them, and writing them.
use crate::choices::{Choices, fnv};
use crate::corpus::CORPUS;
use crate::ctx::{Ctx, R, violation};
use crate::describe;
use crate::elfmodel::lossy;
use crate::ensure;
use crate::machomodel::*;
use crate::sc_emit::Subject;
use crate::simio::{SimSink, SinkCfg, SourceCfg, through_stream};
use object::build::macho as bm;
use object::macho;
use object::write::{StreamingBuffer, WritableBuffer};
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub enum Edit {
    DelSec(usize),
    RenameSec(usize, Vec<u8>),
    SecData(usize, Vec<u8>),
    SecZero(usize, u32),
    AddSec(usize, Sec),
    DelSym(usize),
    RenameSym(usize, Vec<u8>),
    SymSet(usize, Sym),
    AddSym(Sym),
    RelDel(usize, usize),
    RelAdd(usize, Rel),
    IndSet(usize, usize, Ind),
    DelDylib(usize),
    DylibSet(usize, Dylib),
    IdSet(usize, Vec<u8>),
    CmdDel(usize),
    CmdAdd(usize, Cmd),
    CmdSet(usize, Cmd),
    Tools(usize, Vec<(u32, u32)>),
    Head(u32, u32),
    SegSet(usize, (u32, u32), u32),
}

fn name(c: &mut Choices) -> Vec<u8> {
    let mut n = describe::name(c, 60);
    n.retain(|b| *b != 0);
    if n.is_empty() {
        n.push(b'e');
    }
    n
}

fn name16(c: &mut Choices) -> Vec<u8> {
    let mut n = name(c);
    n.truncate(16);
    n
}

fn pad16(n: &[u8]) -> [u8; 16] {
    let mut v = [0; 16];
    v[..n.len()].copy_from_slice(n);
    v
}

fn pick<T>(c: &mut Choices, v: &[T], ok: impl Fn(usize, &T) -> bool) -> Option<usize> {
    let l: Vec<usize> = v.iter().enumerate().filter(|(i, x)| ok(*i, x)).map(|(i, _)| i).collect();
    if l.is_empty() { None } else { Some(l[c.idx(l.len())]) }
}

impl Edit {
    pub fn draw(c: &mut Choices, m: &Model) -> Option<Edit> {
        let object = m.filetype == MH_OBJECT;
        let w = if m.is64 { u64::MAX } else { u64::from(u32::MAX) };
        let live = |_: usize, s: &Sec| !s.deleted;
        let sym = |c: &mut Choices| pick(c, &m.syms, |_, s| !s.deleted);
        let new_rel = |c: &mut Choices| {
            let mut ty = c.below(if m.cpu == ARM64 || m.cpu == ARM64_32 { 12 } else { 10 }) as u8;
            if m.is_pair(ty) {
                ty = 0;
            }
            let target = if c.chance(1, 3) { Target::Sec(pick(c, &m.secs, live)?) } else { Target::Sym(sym(c)?) };
            Some(Rel { addr: c.size(1 << 24) as u32, target, pcrel: c.chance(1, 2), len: c.below(4) as u8, ty })
        };
        let new_sym = |c: &mut Choices, old: Option<&Sym>| {
            let sect = if c.chance(1, 3) { None } else { pick(c, &m.secs, live) };
            let mut ty = if sect.is_some() { 0xe } else { *c.pick(&[0u8, 0, 0, 2]) };
            ty |= *c.pick(&[0u8, 1, 1, 0x11]);
            let value = match sect {
                Some(s) => m.secs[s].addr.wrapping_add(c.size(0x1000)) & w,
                None if ty & 0xe == 0 && c.chance(2, 3) => 0,
                None => c.size(1 << 30),
            };
            let mut desc = c.below(1 << 16) as u16;
            let mut lib = None;
            if ty & 0xe == 0 && value == 0 && m.flags & TWOLEVEL != 0 {
                // a symbol says where it comes from by naming a library that is there
                lib = old.and_then(|o| o.lib);
                desc = desc & 0xff | lib.map_or(0xfe00, |l| (l as u16 + 1) << 8);
            }
            Sym { name: if c.chance(1, 8) { Vec::new() } else { name(c) }, ty, sect, nsect: 0, desc, value, lib, deleted: false }
        };
        Some(match c.below(24) {
            0 | 1 => Edit::DelSec(pick(c, &m.secs, live)?),
            2 => Edit::RenameSec(pick(c, &m.secs, live)?, name16(c)),
            3 => {
                let s = pick(c, &m.secs, |_, s| !s.deleted && s.data.is_some())?;
                let old = m.secs[s].size;
                let mut n = old;
                if m.secs[s].ind_size(m.is64).is_none() && c.chance(1, 3) {
                    n = c.below(old + 1);
                }
                Edit::SecData(s, c.bytes(n as usize))
            }
            4 => {
                let s = pick(c, &m.secs, |_, s| !s.deleted && s.data.is_none())?;
                Edit::SecZero(s, c.below(m.secs[s].size + 1) as u32)
            }
            5 | 6 => {
                let g = pick(c, &m.segs, |_, g| !g.deleted && nul(&g.name) != b"__LINKEDIT" && (object || !g.secs.is_empty()))?;
                let seg = &m.segs[g];
                let align = if object && c.chance(1, 40) { 64 + c.below(3) as u32 } else { c.below(7) as u32 };
                let zero = c.chance(1, 3);
                let (addr, size) = if object {
                    // (places in object files are chosen when writing)
                    (0, c.size(200))
                } else {
                    let end = seg.secs.iter().filter(|s| !m.secs[**s].deleted).map(|s| m.secs[*s].addr + m.secs[*s].size).max()?;
                    let addr = end.div_ceil(1 << align) << align;
                    let room = (seg.vmaddr + seg.vmsize).checked_sub(addr)?;
                    (addr, c.size(200.min(room)))
                };
                let pointers = !zero && c.chance(1, 3);
                let flags = if zero { 1 } else if pointers { *c.pick(&[6u32, 20]) } else { *c.pick(&[0u32, 0, 2, 0x8000_0400]) };
                let size = if pointers { size - size % m.word() } else { size };
                let mut s = Sec {
                    name: pad16(&name16(c)),
                    seg: if object { pad16(&name16(c)) } else { seg.name },
                    addr,
                    size,
                    offset: 0,
                    align,
                    flags,
                    stub: 0,
                    data: if zero { None } else { Some(c.bytes(size as usize)) },
                    relocs: vec![],
                    inds: vec![],
                    deleted: false,
                    added: true,
                };
                if pointers && m.cmds.contains(&Cmd::Dysymtab) {
                    for _ in 0..size / m.word() {
                        s.inds.push(match sym(c) {
                            Some(i) if c.chance(3, 4) => Ind::Sym(i),
                            _ => Ind::Flags(*c.pick(&[0x8000_0000, 0x4000_0000, 0xc000_0000])),
                        });
                    }
                } else if pointers {
                    s.flags = 0;
                }
                if object && !zero {
                    for _ in 0..c.below(3) {
                        s.relocs.extend(new_rel(c));
                    }
                }
                Edit::AddSec(g, s)
            }
            7 | 8 => Edit::DelSym(sym(c)?),
            9 => Edit::RenameSym(sym(c)?, name(c)),
            10 => {
                let i = pick(c, &m.syms, |_, s| !s.deleted && !s.stab())?;
                let mut s = new_sym(c, Some(&m.syms[i]));
                s.name = m.syms[i].name.clone();
                Edit::SymSet(i, s)
            }
            11 | 12 => Edit::AddSym(new_sym(c, None)),
            13 => {
                let s = pick(c, &m.secs, |_, s| !s.deleted && !s.relocs.is_empty())?;
                Edit::RelDel(s, c.idx(m.secs[s].relocs.len()))
            }
            14 if object => {
                let s = pick(c, &m.secs, |_, s| !s.deleted && s.data.is_some())?;
                Edit::RelAdd(s, new_rel(c)?)
            }
            15 => {
                let s = pick(c, &m.secs, |_, s| !s.deleted && !s.inds.is_empty())?;
                let k = c.idx(m.secs[s].inds.len());
                Edit::IndSet(s, k, if c.chance(1, 4) { Ind::Flags(0x8000_0000) } else { Ind::Sym(sym(c)?) })
            }
            16 => Edit::DelDylib(pick(c, &m.dylibs, |_, l| !l.deleted)?),
            17 if !object => {
                let l = Dylib { cmd: *c.pick(&[0xc, 0x8000_0018, 0x8000_001f, 0x20, 0x8000_0023]), name: name(c), ts: c.below(1 << 32) as u32, cur: c.below(1 << 32) as u32, compat: c.below(1 << 32) as u32, deleted: false };
                let i = pick(c, &m.dylibs, |_, l| !l.deleted)?;
                Edit::DylibSet(i, l)
            }
            18 => {
                let k = pick(c, &m.cmds, |_, x| matches!(x, Cmd::Id(_)))?;
                Edit::IdSet(k, name(c))
            }
            19 => Edit::CmdDel(pick(c, &m.cmds, |_, x| matches!(x, Cmd::Other(..) | Cmd::Blob(..) | Cmd::DyldInfo(_) | Cmd::Build { .. }))?),
            20 => {
                let at = c.idx(m.cmds.len() + 1);
                let n = c.size(64) as usize;
                let new = match c.below(3) {
                    0 => Cmd::Blob(*c.pick(&[0x26, 0x29, 0x2b, 0x8000_0033, 0x1e]), c.bytes(n)),
                    1 => Cmd::Build { platform: c.below(12) as u32, minos: c.below(1 << 24) as u32, sdk: c.below(1 << 24) as u32, tools: vec![(1, 2); c.idx(3)] },
                    _ => Cmd::Other(*c.pick(&[0x1b, 0x2a, 0xe]), c.bytes(16 + n * 8)),
                };
                Edit::CmdAdd(at, new)
            }
            21 => {
                let k = pick(c, &m.cmds, |_, x| matches!(x, Cmd::Other(..) | Cmd::Blob(..) | Cmd::DyldInfo(_)))?;
                let n = c.size(200) as usize;
                Edit::CmdSet(k, match &m.cmds[k] {
                    Cmd::Other(t, d) => Cmd::Other(*t, c.bytes(d.len())),
                    Cmd::Blob(t, _) => Cmd::Blob(*t, c.bytes(n)),
                    _ => {
                        let mut v: [Vec<u8>; 5] = Default::default();
                        for v in &mut v {
                            let n = c.size(100) as usize;
                            *v = c.bytes(n);
                        }
                        Cmd::DyldInfo(v)
                    }
                })
            }
            22 => {
                let k = pick(c, &m.cmds, |_, x| matches!(x, Cmd::Build { .. }))?;
                let n = c.below(4);
                Edit::Tools(k, (0..n).map(|i| (i as u32, c.below(1 << 24) as u32)).collect())
            }
            23 => {
                if c.chance(1, 2) {
                    Edit::Head(c.below(1 << 32) as u32, (c.below(1 << 32) as u32) & !TWOLEVEL | m.flags & TWOLEVEL)
                } else {
                    Edit::SegSet(pick(c, &m.segs, |_, g| !g.deleted)?, (c.below(8) as u32, c.below(8) as u32), c.below(32) as u32)
                }
            }
            _ => return None,
        })
    }

    pub fn model(&self, m: &mut Model) {
        match self.clone() {
            Edit::DelSec(s) => m.secs[s].deleted = true,
            Edit::RenameSec(s, n) => m.secs[s].name = pad16(&n),
            Edit::SecData(s, d) => {
                m.secs[s].size = d.len() as u64;
                m.secs[s].data = Some(d);
            }
            Edit::SecZero(s, n) => m.secs[s].size = u64::from(n),
            Edit::AddSec(g, s) => {
                m.segs[g].secs.push(m.secs.len());
                m.secs.push(s);
            }
            Edit::DelSym(s) => m.syms[s].deleted = true,
            Edit::RenameSym(s, n) => m.syms[s].name = n,
            Edit::SymSet(i, s) => m.syms[i] = s,
            Edit::AddSym(s) => m.syms.push(s),
            Edit::RelDel(s, k) => {
                let (a, b) = pair(m, s, k);
                m.secs[s].relocs.drain(a..b);
            }
            Edit::RelAdd(s, r) => m.secs[s].relocs.push(r),
            Edit::IndSet(s, k, i) => m.secs[s].inds[k] = i,
            Edit::DelDylib(i) => m.dylibs[i].deleted = true,
            Edit::DylibSet(i, l) => m.dylibs[i] = l,
            Edit::IdSet(k, n) => {
                if let Cmd::Id(l) = &mut m.cmds[k] {
                    l.name = n;
                }
            }
            Edit::CmdDel(k) => {
                m.cmds.remove(k);
            }
            Edit::CmdAdd(k, x) => m.cmds.insert(k, x),
            Edit::CmdSet(k, x) => m.cmds[k] = x,
            Edit::Tools(k, t) => {
                if let Cmd::Build { tools, .. } = &mut m.cmds[k] {
                    *tools = t;
                }
            }
            Edit::Head(a, f) => (m.cpusub, m.flags) = (a, f),
            Edit::SegSet(g, p, f) => (m.segs[g].prot, m.segs[g].flags) = (p, f),
        }
    }

    pub fn builder<'a>(&self, b: &mut bm::Builder<'a>, ids: &mut Ids, before: &Model) {
        let rel = |ids: &Ids, r: &Rel| bm::Relocation {
            target: match r.target {
                Target::Sym(i) => bm::RelocationTarget::Symbol(ids.syms[i]),
                Target::Sec(i) => bm::RelocationTarget::Section(ids.secs[i]),
                Target::Num(_) => unreachable!(),
            },
            r_address: r.addr,
            r_pcrel: r.pcrel,
            r_length: r.len,
            r_type: macho::RelocationType(r.ty),
        };
        let ind = |ids: &Ids, i: &Ind| match i {
            Ind::Sym(i) => bm::IndirectSymbol::Symbol(ids.syms[*i]),
            Ind::Flags(f) => bm::IndirectSymbol::Flags(macho::IndirectSymbol(*f)),
        };
        let set_sym = |ids: &Ids, x: &mut bm::Symbol<'a>, s: &Sym| {
            x.name = s.name.clone().into();
            x.section = s.sect.map(|i| ids.secs[i]);
            x.dylib = s.lib.map(|i| ids.libs[i]);
            x.n_type = macho::SymbolFlags(s.ty);
            x.n_sect = s.nsect;
            x.n_desc = macho::SymbolDesc(s.desc);
            x.n_value = s.value;
        };
        let lib = |l: &Dylib| bm::Dylib {
            delete: false,
            cmd: macho::LoadCommandType(l.cmd),
            name: l.name.clone().into(),
            timestamp: l.ts,
            current_version: macho::Version(l.cur),
            compatibility_version: macho::Version(l.compat),
        };
        let tools = |t: &[(u32, u32)]| t.iter().map(|t| bm::BuildToolVersion { tool: macho::Tool(t.0), version: macho::Version(t.1) }).collect();
        let command = |x: &Cmd| match x.clone() {
            Cmd::Blob(c, d) => bm::LoadCommand::LinkeditData { cmd: macho::LoadCommandType(c), data: d.into() },
            Cmd::Other(c, d) => bm::LoadCommand::Other { cmd: macho::LoadCommandType(c), data: d.into() },
            Cmd::Build { platform, minos, sdk, tools: t } => {
                bm::LoadCommand::BuildVersion(bm::BuildVersion { platform: macho::Platform(platform), minos: macho::Version(minos), sdk: macho::Version(sdk), tools: tools(&t) })
            }
            Cmd::DyldInfo([a, b, c, d, e]) => bm::LoadCommand::DyldInfo { rebase: a.into(), bind: b.into(), weak_bind: c.into(), lazy_bind: d.into(), export: e.into() },
            _ => unreachable!(),
        };
        match self {
            Edit::DelSec(s) => b.sections.get_mut(ids.secs[*s]).delete = true,
            Edit::RenameSec(s, n) => b.sections.get_mut(ids.secs[*s]).sectname = pad16(n),
            Edit::SecData(s, d) => b.sections.get_mut(ids.secs[*s]).data = bm::SectionData::Data(d.clone().into()),
            Edit::SecZero(s, n) => b.sections.get_mut(ids.secs[*s]).data = bm::SectionData::UninitializedData(*n),
            Edit::AddSec(g, s) => {
                let relocs = s.relocs.iter().map(|r| rel(ids, r)).collect();
                let inds = s.inds.iter().map(|r| ind(ids, r)).collect();
                let x = b.sections.add();
                x.sectname = s.name;
                x.segname = s.seg;
                x.addr = s.addr;
                x.align = s.align;
                x.flags = macho::SectionFlags(s.flags);
                x.data = match &s.data {
                    Some(d) => bm::SectionData::Data(d.clone().into()),
                    None => bm::SectionData::UninitializedData(s.size as u32),
                };
                x.relocations = relocs;
                x.indirect_symbols = inds;
                let id = x.id();
                ids.secs.push(id);
                b.segments.get_mut(ids.segs[*g]).sections.push(id);
            }
            Edit::DelSym(s) => b.symbols.get_mut(ids.syms[*s]).delete = true,
            Edit::RenameSym(s, n) => b.symbols.get_mut(ids.syms[*s]).name = n.clone().into(),
            Edit::SymSet(i, s) => set_sym(ids, b.symbols.get_mut(ids.syms[*i]), s),
            Edit::AddSym(s) => {
                let x = b.symbols.add();
                set_sym(ids, x, s);
                ids.syms.push(x.id());
            }
            Edit::RelDel(s, k) => {
                let (x, y) = pair(before, *s, *k);
                b.sections.get_mut(ids.secs[*s]).relocations.drain(x..y);
            }
            Edit::RelAdd(s, r) => {
                let r = rel(ids, r);
                b.sections.get_mut(ids.secs[*s]).relocations.push(r);
            }
            Edit::IndSet(s, k, i) => {
                let i = ind(ids, i);
                b.sections.get_mut(ids.secs[*s]).indirect_symbols[*k] = i;
            }
            Edit::DelDylib(i) => b.dylibs.get_mut(ids.libs[*i]).delete = true,
            Edit::DylibSet(i, l) => {
                let x = b.dylibs.get_mut(ids.libs[*i]);
                let n = lib(l);
                (x.cmd, x.name, x.timestamp, x.current_version, x.compatibility_version) = (n.cmd, n.name, n.timestamp, n.current_version, n.compatibility_version);
            }
            Edit::IdSet(k, n) => {
                if let bm::LoadCommand::IdDylib(l) = &mut b.commands[*k] {
                    l.name = n.clone().into();
                }
            }
            Edit::CmdDel(k) => {
                b.commands.remove(*k);
            }
            Edit::CmdAdd(k, x) => b.commands.insert(*k, command(x)),
            Edit::CmdSet(k, x) => b.commands[*k] = command(x),
            Edit::Tools(k, t) => {
                if let bm::LoadCommand::BuildVersion(v) = &mut b.commands[*k] {
                    v.tools = tools(t);
                }
            }
            Edit::Head(a, f) => (b.header.cpusubtype, b.header.flags) = (macho::CpuSubtype(*a), macho::FileFlags(*f)),
            Edit::SegSet(g, p, f) => {
                let x = b.segments.get_mut(ids.segs[*g]);
                (x.maxprot, x.initprot, x.flags) = (macho::VmProt(p.0), macho::VmProt(p.1), macho::SegmentFlags(*f));
            }
        }
    }
}

/// The relocations that belong together with number `k`.
fn pair(m: &Model, s: usize, k: usize) -> (usize, usize) {
    let v = &m.secs[s].relocs;
    let mut i = 0;
    while i < v.len() {
        let n = if m.is_pair(v[i].ty) && i + 1 < v.len() { 2 } else { 1 };
        if k < i + n {
            return (i, i + n);
        }
        i += n;
    }
    unreachable!()
}

pub struct Ids {
    secs: Vec<bm::SectionId>,
    syms: Vec<bm::SymbolId>,
    segs: Vec<bm::SegmentId>,
    libs: Vec<bm::DylibId>,
}

impl Ids {
    pub fn of(b: &bm::Builder<'_>) -> Ids {
        Ids {
            secs: b.sections.iter().map(|s| s.id()).collect(),
            syms: b.symbols.iter().map(|s| s.id()).collect(),
            segs: b.segments.iter().map(|s| s.id()).collect(),
            libs: b.commands.iter().filter_map(|c| if let bm::LoadCommand::Dylib(i) = c { Some(*i) } else { None }).collect(),
        }
    }
}

/// What writing does besides: things that refer to deleted things go away.
pub fn finalize(m: &mut Model) {
    let dead: Vec<bool> = m.secs.iter().map(|s| s.deleted).collect();
    for g in &mut m.segs {
        if !g.secs.is_empty() {
            g.secs.retain(|s| !dead[*s]);
            g.deleted |= g.secs.is_empty();
        }
    }
    for s in &mut m.syms {
        s.deleted |= s.sect.is_some_and(|s| dead[s]);
    }
    for s in 0..m.secs.len() {
        let mut k = 0;
        while k < m.secs[s].relocs.len() {
            let (a, b) = pair(m, s, k);
            let gone = m.secs[s].relocs[a..b].iter().any(|r| match r.target {
                Target::Sym(i) => m.syms[i].deleted,
                Target::Sec(i) => dead[i],
                Target::Num(_) => false,
            });
            if gone {
                m.secs[s].relocs.drain(a..b);
            } else {
                k = b;
            }
        }
    }
    let (segs, libs) = (&m.segs, &m.dylibs);
    m.cmds.retain(|c| match c {
        Cmd::Seg(i) => !segs[*i].deleted,
        Cmd::Dylib(i) => !libs[*i].deleted,
        _ => true,
    });
}

fn cmd_size(m: &Model, c: &Cmd) -> u64 {
    let lib = |l: &Dylib| (24 + l.name.len() as u64 + 1).div_ceil(m.word()) * m.word();
    match c {
        Cmd::Seg(i) => {
            let n = m.segs[*i].secs.len() as u64;
            if m.is64 { 72 + 80 * n } else { 56 + 68 * n }
        }
        Cmd::Symtab => 24,
        Cmd::Dysymtab => 80,
        Cmd::Dylib(i) => lib(&m.dylibs[*i]),
        Cmd::Id(l) => lib(l),
        Cmd::Build { tools, .. } => 24 + 8 * tools.len() as u64,
        Cmd::Blob(..) => 16,
        Cmd::DyldInfo(_) => 48,
        Cmd::Other(_, d) => 8 + d.len() as u64,
    }
}

/// A reason for which a finalized model cannot be written; the flag says that it need not be refused.
pub fn refusal(m: &Model) -> Option<(String, bool)> {
    let no = |s: &str| Some((s.to_string(), false));
    let live: Vec<&Seg> = m.cmds.iter().filter_map(|c| if let Cmd::Seg(i) = c { Some(&m.segs[*i]) } else { None }).collect();
    for s in m.secs.iter().filter(|s| !s.deleted) {
        if s.inds.iter().any(|i| matches!(i, Ind::Sym(i) if m.syms[*i].deleted)) {
            return no("an indirect symbol is deleted");
        }
    }
    if m.syms.iter().any(|s| !s.deleted && s.lib.is_some_and(|l| m.dylibs[l].deleted)) {
        return no("the library of a symbol is deleted");
    }
    if m.filetype == MH_OBJECT {
        if m.secs.iter().any(|s| !s.deleted && s.align >= 64) {
            return no("an alignment of 2^64");
        }
        return if live.len() != 1 { no("not one segment") } else { None };
    }
    let end = if m.is64 { 32 } else { 28 } + m.cmds.iter().map(|c| cmd_size(m, c)).sum::<u64>();
    // The first segment with data holds the header.
    for g in &live {
        let v: Vec<&Sec> = g.secs.iter().map(|s| &m.secs[*s]).filter(|s| s.data.is_some()).collect();
        if v.is_empty() {
            continue;
        }
        let first = v[0].addr - g.vmaddr;
        if first < end {
            return Some(("no room for the load commands".into(), v[0].size == 0));
        }
        break;
    }
    None
}

type SymKey = (Vec<u8>, u8, Option<usize>, u8, u16, u64, Option<usize>);

/// Symbols as what they say, with sections and libraries by their position among those that are left.
fn keys(m: &Model, secpos: &[Option<usize>], libpos: &[Option<usize>]) -> Vec<SymKey> {
    m.syms
        .iter()
        .map(|s| {
            let value = match s.sect {
                Some(i) if m.filetype == MH_OBJECT && !s.stab() => s.value.wrapping_sub(m.secs[i].addr) & if m.is64 { u64::MAX } else { 0xffff_ffff },
                _ => s.value,
            };
            let desc = if s.lib.is_some() { s.desc & 0xff } else { s.desc };
            (s.name.clone(), s.ty, s.sect.map(|i| secpos[i].unwrap_or(usize::MAX)), if s.sect.is_some() { 0 } else { s.nsect }, desc, value, s.lib.map(|i| libpos[i].unwrap_or(usize::MAX)))
        })
        .collect()
}

fn positions(n: usize, order: impl Iterator<Item = usize>) -> (Vec<Option<usize>>, Vec<usize>) {
    let mut pos = vec![None; n];
    let mut list = Vec::new();
    for i in order {
        pos[i] = Some(list.len());
        list.push(i);
    }
    (pos, list)
}

fn sec_order(m: &Model) -> (Vec<Option<usize>>, Vec<usize>) {
    positions(m.secs.len(), m.cmds.iter().filter_map(|c| if let Cmd::Seg(i) = c { Some(&m.segs[*i].secs) } else { None }).flatten().copied())
}

fn lib_order(m: &Model) -> (Vec<Option<usize>>, Vec<usize>) {
    positions(m.dylibs.len(), m.cmds.iter().filter_map(|c| if let Cmd::Dylib(i) = c { Some(*i) } else { None }))
}

pub fn compare(tag: &str, e: &Model, o: &Model) -> R {
    let object = e.filetype == MH_OBJECT;
    let head = |m: &Model| (m.be, m.is64, m.cpu, m.cpusub, m.filetype, m.flags);
    ensure!(head(e) == head(o), "header", "{tag}: header {:x?}, not {:x?}", head(o), head(e));
    if let Some(p) = o.problems.first() {
        return violation("inconsistent-tables", format!("{tag}: {p}"));
    }
    let (spos, secs) = sec_order(e);
    let (ospos, osecs) = sec_order(o);
    let (lpos, libs) = lib_order(e);
    let (olpos, olibs) = lib_order(o);
    // commands
    ensure!(e.cmds.len() == o.cmds.len(), "commands", "{tag}: {} load commands, not {}", o.cmds.len(), e.cmds.len());
    for (k, (x, y)) in e.cmds.iter().zip(&o.cmds).enumerate() {
        match (x, y) {
            (Cmd::Seg(a), Cmd::Seg(b)) => {
                let (a, b) = (&e.segs[*a], &o.segs[*b]);
                let key = |g: &Seg| (lossy(nul(&g.name)), g.name, g.vmaddr, g.prot, g.flags, g.secs.len());
                ensure!(key(a) == key(b), "segment", "{tag}: segment {:x?}, not {:x?}", key(b), key(a));
                if !object && nul(&a.name) != b"__LINKEDIT" {
                    ensure!(a.vmsize == b.vmsize, "segment", "{tag}: segment {} has size {:x}, not {:x}", lossy(nul(&a.name)), b.vmsize, a.vmsize);
                }
            }
            (Cmd::Dylib(a), Cmd::Dylib(b)) => {
                let (a, b) = (&e.dylibs[*a], &o.dylibs[*b]);
                ensure!(a == b, "library", "{tag}: library {b:?}, not {a:?}");
            }
            (x, y) => ensure!(x == y, "command", "{tag}: command {k} is {y:?}, not {x:?}"),
        }
    }
    ensure!(libs.len() == olibs.len(), "libraries", "{tag}: {} libraries, not {}", olibs.len(), libs.len());
    // symbols
    let want = keys(e, &spos, &lpos);
    let got = keys(o, &ospos, &olpos);
    let mut locals = Vec::new();
    let mut others: BTreeMap<&SymKey, i64> = BTreeMap::new();
    for (s, k) in e.syms.iter().zip(&want).filter(|(s, _)| !s.deleted) {
        if s.group() == 0 {
            locals.push(k);
        } else {
            *others.entry(k).or_default() += 1;
        }
    }
    let n = e.syms.iter().filter(|s| !s.deleted).count();
    ensure!(n == got.len(), "symbols", "{tag}: {} symbols, not {n}", got.len());
    let olocals: Vec<&SymKey> = o.syms.iter().zip(&got).filter(|(s, _)| s.group() == 0).map(|(_, k)| k).collect();
    for (a, b) in locals.iter().zip(&olocals) {
        ensure!(a == b, "symbol", "{tag}: symbol {} {:x?}, not {} {:x?}", lossy(&b.0), b, lossy(&a.0), a);
    }
    ensure!(locals.len() == olocals.len(), "symbols", "{tag}: {} local symbols, not {}", olocals.len(), locals.len());
    for (s, k) in o.syms.iter().zip(&got).filter(|(s, _)| s.group() != 0) {
        let c = others.entry(k).or_default();
        *c -= 1;
        ensure!(*c >= 0, "symbol", "{tag}: symbol {} {:x?} is new ({:?})", lossy(&s.name), k, want.iter().find(|w| w.0 == k.0));
    }
    // The groups of symbols come in order, as the dynamic symbol table command says.
    if let Some(d) = o.dysymtab {
        let n: Vec<u32> = (0..3).map(|g| o.syms.iter().filter(|s| s.group() == g).count() as u32).collect();
        ensure!(d == [0, n[0], n[0], n[1], n[0] + n[1], n[2]], "dysymtab", "{tag}: groups {d:?}, but the numbers are {n:?}");
        for (i, s) in o.syms.iter().enumerate() {
            let g = if i < n[0] as usize { 0 } else if i < (n[0] + n[1]) as usize { 1 } else { 2 };
            ensure!(s.group() == g, "dysymtab", "{tag}: symbol {i} {} is in the wrong group", lossy(&s.name));
        }
        for g in 1..3 {
            let v: Vec<&[u8]> = o.syms.iter().filter(|s| s.group() == g).map(|s| &s.name[..]).collect();
            ensure!(v.windows(2).all(|w| w[0] <= w[1]), "dysymtab", "{tag}: group {g} is not sorted by name");
        }
    }
    // sections
    ensure!(secs.len() == osecs.len(), "sections", "{tag}: {} sections, not {}", osecs.len(), secs.len());
    for (k, (a, b)) in secs.iter().zip(&osecs).enumerate() {
        let (a, b) = (&e.secs[*a], &o.secs[*b]);
        let t = format!("{tag}: section {k} {}", a.label());
        let key = |s: &Sec| (s.name, s.seg, s.size, s.align, s.flags, s.stub);
        ensure!(key(a) == key(b), "section", "{t}: {} {:x?}, not {:x?}", b.label(), key(b), key(a));
        ensure!(a.added && object || a.addr == b.addr, "section-address", "{t} is at {:x}, not {:x}", b.addr, a.addr);
        ensure!(a.data == b.data, "section-data", "{t}: the contents differ");
        ensure!(a.relocs.len() == b.relocs.len(), "relocations", "{t}: {} relocations, not {}", b.relocs.len(), a.relocs.len());
        for (i, (x, y)) in a.relocs.iter().zip(&b.relocs).enumerate() {
            let key = |r: &Rel| (r.addr, r.pcrel, r.len, r.ty);
            ensure!(key(x) == key(y), "relocation", "{t} relocation {i}: {y:?}, not {x:?}");
            let same = match (x.target, y.target) {
                (Target::Sym(p), Target::Sym(q)) => want[p] == got[q],
                (Target::Sec(p), Target::Sec(q)) => spos[p] == ospos[q],
                (Target::Num(p), Target::Num(q)) => p == q,
                _ => false,
            };
            ensure!(same, "relocation-target", "{t} relocation {i}: target {:?}, not {:?}", y.target, x.target);
        }
        ensure!(a.inds.len() == b.inds.len(), "indirect-symbols", "{t}: {} indirect symbols, not {}", b.inds.len(), a.inds.len());
        for (i, (x, y)) in a.inds.iter().zip(&b.inds).enumerate() {
            let same = match (x, y) {
                (Ind::Sym(p), Ind::Sym(q)) => want[*p] == got[*q],
                (Ind::Flags(p), Ind::Flags(q)) => p == q,
                _ => false,
            };
            ensure!(same, "indirect-symbol", "{t}: indirect symbol {i} is {y:?}, not {x:?}");
        }
    }
    layout(tag, o)
}

pub fn layout(tag: &str, o: &Model) -> R {
    let object = o.filetype == MH_OBJECT;
    let mut v: Vec<(u64, u64, String)> = vec![(0, o.cmds_end, "the load commands".into())];
    let mut mem: Vec<(u64, u64, String)> = Vec::new();
    for g in &o.segs {
        let n = lossy(nul(&g.name));
        ensure!(g.filesize <= g.vmsize, "segment-size", "{tag}: segment {n} has {:x} bytes in the file, {:x} in memory", g.filesize, g.vmsize);
        ensure!(g.fileoff + g.filesize <= o.len, "past-end", "{tag}: segment {n} ends after the file");
        if !object && g.vmsize > 0 {
            mem.push((g.vmaddr, g.vmsize, n.clone()));
        }
        for s in &g.secs {
            let s = &o.secs[*s];
            ensure!(s.addr >= g.vmaddr && s.addr + s.size <= g.vmaddr + g.vmsize, "outside-segment", "{tag}: {} at {:x}+{:x} is outside its segment at {:x}+{:x}", s.label(), s.addr, s.size, g.vmaddr, g.vmsize);
            if s.data.is_some() && s.size > 0 {
                ensure!(object || s.offset.wrapping_sub(g.fileoff) == s.addr - g.vmaddr, "not-congruent", "{tag}: {} at {:x} is not where segment {n} maps it: {:x}, {:x}", s.label(), s.offset, s.addr, g.fileoff);
                ensure!(s.offset >= g.fileoff && s.offset + s.size <= g.fileoff + g.filesize, "outside-segment", "{tag}: {} ends after segment {n} in the file", s.label());
                v.push((s.offset, s.size, s.label()));
            }
            if object {
                ensure!(s.align < 64 && s.addr & ((1u64 << s.align) - 1) == 0, "alignment", "{tag}: {} at {:x} is not aligned to 2^{}", s.label(), s.addr, s.align);
                if s.size > 0 {
                    mem.push((s.addr, s.size, s.label()));
                }
            }
        }
    }
    let edit = o.segs.iter().find(|g| nul(&g.name) == b"__LINKEDIT");
    for (a, n, w) in &o.pieces {
        if *n == 0 {
            continue;
        }
        v.push((*a, *n, w.clone()));
        if let (Some(g), false) = (edit, object) {
            ensure!(*a >= g.fileoff && a + n <= g.fileoff + g.filesize, "outside-segment", "{tag}: {w} at {a:x}+{n:x} is outside the link-edit segment at {:x}+{:x}", g.fileoff, g.filesize);
        }
        let al = if w == "strings" { 1 } else if w.contains("dyld") || w.contains("data of") || w == "symbols" { o.word() } else { 4 };
        ensure!(a % al == 0, "alignment", "{tag}: {w} at {a:x}");
    }
    v.sort();
    for p in v.windows(2) {
        ensure!(p[0].0 + p[0].1 <= p[1].0, "overlap", "{tag}: {} at {:x}+{:x} overlaps {} at {:x}", p[0].2, p[0].0, p[0].1, p[1].2, p[1].0);
    }
    let l = v.last().unwrap();
    ensure!(l.0 + l.1 <= o.len, "past-end", "{tag}: {} ends after the file", l.2);
    mem.sort();
    for p in mem.windows(2) {
        ensure!(p[0].0 + p[0].1 <= p[1].0, "overlap", "{tag}: {} at {:x}+{:x} overlaps {} at {:x} in memory", p[0].2, p[0].0, p[0].1, p[1].2, p[1].0);
    }
    Ok(())
}

fn write_out(ctx: &mut Ctx, b: bm::Builder<'_>) -> Result<Vec<u8>, String> {
    if ctx.c.chance(1, 2) {
        let mut v = Vec::new();
        b.write(&mut v).map_err(|e| e.to_string())?;
        Ok(v)
    } else {
        let cfg = SinkCfg { short: ctx.c.below(20), eintr: ctx.c.below(8), one_byte: ctx.c.chance(1, 6), fail_at: u64::MAX, ..Default::default() };
        let mut sink = SimSink::new(ctx, cfg);
        let mut buf = StreamingBuffer::new(&mut sink);
        b.write(&mut buf).map_err(|e| e.to_string())?;
        buf.result().map_err(|e| format!("the stream: {e}"))?;
        Ok(sink.data)
    }
}

fn history(c: &mut Choices, m: &mut Model, max: u64) -> Vec<(Edit, Model)> {
    let mut edits = Vec::new();
    for _ in 0..c.below(max + 1) {
        if let Some(e) = Edit::draw(c, m) {
            let before = m.clone();
            e.model(m);
            edits.push((e, before));
        }
    }
    edits
}

fn round(ctx: &mut Ctx, tag: &str, data: &[u8], m0: &Model, max_edits: u64) -> R<Option<Vec<u8>>> {
    let mut m = m0.clone();
    let edits = history(&mut ctx.c, &mut m, max_edits);
    for (e, _) in &edits {
        ctx.ev(|| format!("{e:?}").chars().take(160).collect());
    }
    finalize(&mut m);
    let reason = refusal(&m);
    let shape: Vec<_> = edits.iter().map(|(e, _)| std::mem::discriminant(e)).collect();
    ctx.sig(fnv(format!("{tag}{shape:?}{}", m.secs.len()).as_bytes()));
    let apply = |ctx: &mut Ctx, b: Result<bm::Builder<'_>, String>| -> R<Result<Vec<u8>, String>> {
        let mut b = match b {
            Ok(b) => b,
            Err(e) if m.unsupported.is_some() => return Ok(Err(e)),
            Err(e) => return violation("unreadable", format!("{tag}: cannot be read: {e}")),
        };
        if let Some(u) = &m.unsupported {
            return violation("unsupported-accepted", format!("{tag}: read although it has {u}"));
        }
        let mut ids = Ids::of(&b);
        for (e, before) in &edits {
            e.builder(&mut b, &mut ids, before);
        }
        Ok(write_out(ctx, b))
    };
    let r = if ctx.c.chance(1, 2) && m0.syms.len() < 5000 {
        let cfg = SourceCfg::benign(ctx);
        let c: *mut Ctx = ctx;
        through_stream(ctx, data, cfg, |r| apply(unsafe { &mut *c }, bm::Builder::read(r).map_err(|e| e.to_string())))?
    } else {
        apply(ctx, bm::Builder::read(data).map_err(|e| e.to_string()))?
    };
    match r {
        Ok(out) => {
            if let Some((reason, false)) = reason {
                return violation("inexpressible-accepted", format!("{tag}: written although {reason}"));
            }
            ctx.probe("rewritten");
            if edits.is_empty() {
                ctx.probe("rewritten_unchanged");
            }
            let Some(o) = Model::parse(&out) else { return violation("unreadable-output", format!("{tag}: the output is not a readable file")) };
            compare(tag, &m, &o)?;
            ctx.fold_bytes(&out);
            Ok(Some(out))
        }
        Err(e) => {
            ctx.ev(|| format!("refused: {e}"));
            ensure!(reason.is_some() || m.unsupported.is_some(), "refused", "{tag}: {e}");
            ctx.probe("refused");
            Ok(None)
        }
    }
}

pub fn models() -> &'static Vec<(&'static str, &'static [u8], Model)> {
    static M: OnceLock<Vec<(&'static str, &'static [u8], Model)>> = OnceLock::new();
    M.get_or_init(|| CORPUS.iter().filter(|(n, _)| n.starts_with("macho-")).filter_map(|(n, d)| Some((*n, *d, Model::parse(d)?))).collect())
}

/// An object file made by the writer.
pub fn generated(ctx: &mut Ctx) -> R<Option<(String, Vec<u8>, Model)>> {
    let t: Vec<describe::Target> = describe::targets().into_iter().filter(|t| t.fmt == object::BinaryFormat::MachO).collect();
    let t = t[ctx.c.idx(t.len())];
    let (b, _) = describe::build(ctx, t, &describe::GenOpts { max_ops: 40, relocs: true, invalid: 0 })?;
    let Ok(v) = b.obj.write() else { return Ok(None) };
    let Some(m) = Model::parse(&v) else { return violation("unreadable-input", format!("{}: the writer made a file that cannot be read", t.name())) };
    Ok(Some((t.name(), v, m)))
}

fn c17_edit(ctx: &mut Ctx) -> R {
    let (n, mut data, mut model) = if ctx.c.chance(1, 3) {
        let Some(g) = generated(ctx)? else { return Ok(()) };
        ctx.probe("generated");
        g
    } else {
        let all = models();
        let (n, d, m) = &all[ctx.c.idx(all.len())];
        (n.to_string(), d.to_vec(), m.clone())
    };
    for k in 0..1 + ctx.c.below(3) {
        let tag = format!("{n} round {k}");
        let Some(out) = round(ctx, &tag, &data, &model, 8)? else { return Ok(()) };
        let Some(o) = Model::parse(&out) else { return Ok(()) };
        (data, model) = (out, o);
    }
    Ok(())
}

/// So many symbols that 16 bits cannot count them.
fn c17_bulk(ctx: &mut Ctx) -> R {
    let Some(v) = crate::sc_bulk::crowded(ctx, object::BinaryFormat::MachO) else { return Ok(()) };
    let Some(m) = Model::parse(&v) else { return violation("unreadable-input", "many symbols: the writer made a file that cannot be read") };
    round(ctx, &format!("{} symbols", m.syms.len()), &v, &m, 4)?;
    Ok(())
}

pub fn subject(ctx: &mut Ctx) -> R<Box<dyn Subject>> {
    let all = models();
    let (n, d, m) = &all[ctx.c.idx(all.len())];
    let mut m = m.clone();
    let edits = history(&mut ctx.c, &mut m, 6);
    Ok(Box::new(MachoSubject { name: n, data: d, edits }))
}

pub struct MachoSubject {
    name: &'static str,
    data: &'static [u8],
    edits: Vec<(Edit, Model)>,
}

impl Subject for MachoSubject {
    fn name(&self) -> String {
        format!("rewritten {}", self.name)
    }
    fn emit(&self, out: &mut dyn WritableBuffer) -> Result<(), String> {
        let mut b = bm::Builder::read(self.data).map_err(|e| e.to_string())?;
        let mut ids = Ids::of(&b);
        for (e, before) in &self.edits {
            e.builder(&mut b, &mut ids, before);
        }
        b.write(out).map_err(|e| e.to_string())
    }
}

pub const REAL: &[&str] = &["src/build/macho.rs", "src/build/table.rs", "src/build/bytes.rs", "src/write/macho/encoder.rs", "src/write/string.rs", "src/write/util.rs", "src/read/macho", "src/read/read_cache.rs"];
pub const STUB: &[&str] = &["the stored file and its stream (simulated source under the real ReadCache)", "the file written to (simulated sink)", "hash seeds (getrandom)"];

pub fn props(v: &mut Vec<crate::runner::Prop>) {
    let p = |id, rule, scenarios| crate::runner::Prop {
        id, level: "exploration", rule, scenarios, real: REAL, stub: STUB, assumptions: &[], quick_secs: 45, thorough_secs: 900,
    };
    v.push(p("C17", "distinct (file, edit history shape)", vec![("edit", 3000, c17_edit as _), ("bulk", 1, c17_bulk as _)]));
}

/// Development: which files can be rewritten, and what the unchanged rewrite looks like.
pub fn list() {
    for (n, d) in CORPUS.iter().filter(|(n, _)| n.starts_with("macho-")) {
        let Some(m) = Model::parse(d) else {
            println!("{n}: no model");
            continue;
        };
        let b = match bm::Builder::read(*d) {
            Ok(b) => b,
            Err(e) => {
                println!("{n}: read: {e} ({:?})", m.unsupported);
                continue;
            }
        };
        let mut v = Vec::new();
        if let Err(e) = b.write(&mut v) {
            println!("{n}: write: {e}");
            continue;
        }
        let mut f = m.clone();
        finalize(&mut f);
        let r = Model::parse(&v).map(|o| compare(n, &f, &o).map_err(|v| v.detail));
        println!("{n}: OK problems {:?} unsupported {:?} result {r:?} layout {:?}", m.problems, m.unsupported, layout(n, &m).map_err(|v| v.detail));
    }
}
