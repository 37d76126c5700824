//! C10: reading ELF files into the builder, changing them, and writing them.
use crate::choices::{Choices, fnv};
use crate::corpus::CORPUS;
use crate::ctx::{Ctx, R, violation};
use crate::describe;
use crate::elfmodel::*;
use crate::ensure;
use crate::sc_emit::Subject;
use crate::simio::{SimSink, SinkCfg, SourceCfg, through_stream};
use object::build::elf as be;
use object::build::{ByteString, Bytes, Id};
use object::elf;
use object::write::{StreamingBuffer, WritableBuffer};
use object::Endianness;
use std::collections::BTreeMap;
use std::sync::OnceLock;

/// Corpus files that the builder rewrites (established when the corpus was made; a file that drops out is noticed).
/// The others contain what the builder says it does not support: groups, shared string tables, other section types.
pub const REWRITABLE: &[&str] = &[
    "elf-debuglink-x86_64",
    "elf-dso-aarch64.so",
    "elf-dso-armv7.so",
    "elf-dso-i686.so",
    "elf-dso-powerpc.so",
    "elf-dso-powerpc64le.so",
    "elf-dso-relr-x86_64.so",
    "elf-dso-riscv64.so",
    "elf-dso-s390x.so",
    "elf-dso-x86_64.so",
    "elf-gnu-base-x86_64.so",
    "elf-gnu-dso-i386.so",
    "elf-gnu-dso-x86_64.so",
    "elf-gnu-g-x86_64.o",
    "elf-gnu-i386.o",
    "elf-gnu-x86_64.o",
    "elf-go-compressed-32",
    "elf-go-compressed-64",
    "elf-go-gcc-386-freebsd-exec",
    "elf-go-gcc-amd64-openbsd-debug-with-rela",
    "elf-go-go-relocation-test-gcc620-sparc64",
    "elf-go-zdebug-test-gcc484-x86-64",
    "elf-go-zstd",
    "elf-pie-x86_64",
    "elf-static-x86_64",
];

#[derive(Clone, Debug)]
pub enum Edit {
    DelSec(usize),
    RenameSec(usize, Vec<u8>),
    SecData(usize, Vec<u8>),
    SecFields(usize, u64, u64, u64, u32),
    AddData { name: Vec<u8>, note: bool, flags: u64, align: u64, entsize: u64, data: Vec<u8>, link: Option<usize> },
    AddNoBits(Vec<u8>, u64, u64),
    AddRelocs { name: Vec<u8>, rela: bool, target: Option<usize>, entries: Vec<Rel> },
    AddAttrs(Vec<u8>, Vec<Attr>),
    DelSym(bool, usize),
    RenameSym(bool, usize, Vec<u8>),
    SymFields(bool, usize, u8, u8, u64, u64),
    SymPlace(bool, usize, Option<usize>, u16),
    AddSym(bool, Sym),
    SymVer(usize, usize, bool),
    RelDel(usize, usize),
    RelAdd(usize, Rel),
    RelSet(usize, usize, Rel),
    DynSet(usize, usize, DVal),
    DynDel(usize, usize),
    DynAdd(usize, usize, u64, DVal),
    Head(u64, u32, u8, u8),
    SegFlags(usize, u32, u64),
    DelSeg(usize),
    Hash(u32, (u32, u32, u32)),
    VerRename(usize, Vec<u8>),
    AddNeed(Vec<u8>, Vec<u8>, usize),
    Strip,
    AddTable(T, Vec<u8>),
}

/// Which names may be used: those a symbol table can hold.
fn name(c: &mut Choices) -> Vec<u8> {
    let mut n = describe::name(c, 60);
    n.retain(|b| *b != 0);
    if n.is_empty() {
        n.push(b'e');
    }
    n
}

fn pick<T>(c: &mut Choices, v: &[T], ok: impl Fn(usize, &T) -> bool) -> Option<usize> {
    let l: Vec<usize> = v.iter().enumerate().filter(|(i, x)| ok(*i, x)).map(|(i, _)| i).collect();
    if l.is_empty() { None } else { Some(l[c.idx(l.len())]) }
}

impl Edit {
    /// May this make the layout impossible (so that writing may be refused)?
    fn risky(&self, m: &Model) -> bool {
        let exec = !m.segs.is_empty();
        let alloc = |s: usize| m.secs[s].flags & ALLOC != 0 && exec;
        match self {
            Edit::SecData(s, d) => alloc(*s) && d.len() as u64 > m.secs[*s].size,
            Edit::RenameSym(d, ..) | Edit::AddSym(d, _) => *d,
            Edit::RelAdd(s, _) => alloc(*s),
            Edit::DynSet(_, _, DVal::Str(_)) | Edit::DynAdd(..) | Edit::Hash(..) | Edit::VerRename(..) | Edit::AddNeed(..) => true,
            // A symbol that becomes local, defined or undefined changes the size of the lookup tables.
            Edit::SymFields(d, ..) | Edit::SymPlace(d, ..) => *d,
            _ => false,
        }
    }

    pub fn draw(c: &mut Choices, m: &Model) -> Option<Edit> {
        let live = |_: usize, s: &Sec| !s.deleted;
        let plain = |s: &Sec| !s.deleted && matches!(s.kind, Kind::Data(_));
        let w = if m.h.is64 { u64::MAX } else { u64::from(u32::MAX) };
        let dynamic = c.chance(1, 3) && m.dyns.iter().any(|s| !s.deleted);
        let syms = if dynamic { &m.dyns } else { &m.syms };
        let a_sym = |c: &mut Choices| pick(c, syms, |_, s| !s.deleted);
        let sect = |c: &mut Choices| if c.chance(1, 4) { None } else { pick(c, &m.secs, live) };
        let rel = |c: &mut Choices, m: &Model, dynamic: bool, rela: bool| {
            let t = if dynamic { &m.dyns } else { &m.syms };
            let a = c.u64() as i64;
            let mips = m.h.is64 && m.h.machine == EM_MIPS;
            Rel {
                offset: c.size(1 << 40) & w,
                sym: if c.chance(1, 5) { None } else { pick(c, t, |_, s| !s.deleted) },
                ty: if m.h.is64 && (!mips || c.chance(1, 2)) { c.below(1 << 32) as u32 } else { c.below(256) as u32 },
                addend: if !rela { 0 } else if m.h.is64 { a } else { i64::from(a as i32) },
            }
        };
        Some(match c.below(27) {
            0 => Edit::DelSec(pick(c, &m.secs, |_, s| !s.deleted && !matches!(s.kind, Kind::Table(_)))?),
            1 => Edit::DelSec(pick(c, &m.secs, live)?),
            2 => Edit::RenameSec(pick(c, &m.secs, live)?, name(c)),
            3 => {
                let i = pick(c, &m.secs, |_, s| plain(s))?;
                let Kind::Data(d) = &m.secs[i].kind else { return None };
                let n = match c.below(4) {
                    0 => d.len(),
                    1 => c.idx(d.len() + 1),
                    _ if m.secs[i].flags & ALLOC == 0 => c.size(300) as usize,
                    2 => d.len() + 1,
                    _ => 0,
                };
                Edit::SecData(i, c.bytes(n))
            }
            4 => {
                let i = pick(c, &m.secs, |_, s| plain(s) && s.flags & ALLOC == 0)?;
                let fl = c.u64() & w & !(ALLOC | INFO_LINK | 0x800 | TLS | 0x200);
                Edit::SecFields(i, fl | (m.secs[i].flags & INFO_LINK), 1 << c.below(7), c.below(64), if m.secs[i].flags & INFO_LINK != 0 { 0 } else { c.below(1 << 32) as u32 })
            }
            5 => {
                let n = c.size(200) as usize;
                Edit::AddData {
                    name: name(c),
                    note: c.chance(1, 5),
                    flags: *c.pick(&[0, 0x30, 0x8000_0000, 0x10]),
                    align: *c.pick(&[0, 1, 2, 4, 8, 16, 64, 4096]),
                    entsize: c.below(3),
                    data: c.bytes(n),
                    link: if c.chance(1, 4) { pick(c, &m.secs, live) } else { None },
                }
            }
            6 => Edit::AddNoBits(name(c), c.size(1 << 20), 1 << c.below(6)),
            7 | 8 => {
                m.table(T::Symtab)?;
                let rela = c.chance(1, 2);
                let n = c.below(6);
                let entries = (0..n).map(|_| rel(c, m, false, rela)).collect();
                Edit::AddRelocs { name: name(c), rela, target: if c.chance(1, 4) { None } else { pick(c, &m.secs, live) }, entries }
            }
            9 => {
                if !matches!(m.h.machine, EM_ARM | EM_AARCH64 | EM_RISCV | EM_CSKY) && c.chance(1, 2) {
                    return None;
                }
                let mut v = Vec::new();
                for _ in 0..c.below(3) {
                    let mut a = Attr { vendor: name(c), subs: Vec::new() };
                    for _ in 0..c.below(3) {
                        let k = c.below(4);
                        let scope = match c.below(3) {
                            0 => Scope::File,
                            1 => Scope::Section((0..k).filter_map(|_| pick(c, &m.secs, live)).collect()),
                            _ => Scope::Symbol((0..k).filter_map(|_| pick(c, &m.syms, |_, s| !s.deleted)).collect()),
                        };
                        let n = c.size(200) as usize;
                        a.subs.push((scope, c.bytes(n)));
                    }
                    v.push(a);
                }
                Edit::AddAttrs(name(c), v)
            }
            10 | 11 => Edit::DelSym(dynamic, a_sym(c)?),
            12 | 13 => {
                let i = a_sym(c)?;
                Edit::RenameSym(dynamic, i, if c.chance(1, 8) { Vec::new() } else { name(c) })
            }
            14 => Edit::SymFields(dynamic, a_sym(c)?, c.below(256) as u8, c.below(4) as u8, c.u64() & w, c.u64() & w),
            15 => Edit::SymPlace(dynamic, a_sym(c)?, sect(c), *c.pick(&[0u16, 0xfff1, 0xfff2])),
            16 | 17 => {
                let dynamic = dynamic && m.table(T::Dynsym).is_some();
                if !dynamic {
                    m.table(T::Symtab)?;
                }
                let s = sect(c);
                Edit::AddSym(
                    dynamic,
                    Sym {
                        name: if c.chance(1, 6) { Vec::new() } else { name(c) },
                        info: (c.below(3) as u8) << 4 | c.below(7) as u8,
                        other: c.below(4) as u8,
                        sect: s,
                        shndx: if s.is_some() { 0 } else { *c.pick(&[0u16, 0xfff1, 0xfff2]) },
                        value: c.u64() & w,
                        size: c.size(1 << 32) & w,
                        ver: 0,
                        hidden: false,
                        deleted: false,
                    },
                )
            }
            18 => {
                if !m.has_versym {
                    return None;
                }
                Edit::SymVer(pick(c, &m.dyns, |_, s| !s.deleted)?, c.idx(m.vers.len() + 2), c.chance(1, 3))
            }
            19 | 20 => {
                let i = pick(c, &m.secs, |_, s| !s.deleted && matches!(s.kind, Kind::Relocs(..)))?;
                let Kind::Relocs(d, v) = &m.secs[i].kind else { return None };
                // relocations without a symbol table cannot have symbols
                let d = *d;
                let mut r = rel(c, m, d, m.secs[i].ty == 4);
                if d && m.secs[i].link != m.table(T::Dynsym) {
                    r.sym = None;
                }
                match c.below(3) {
                    0 => Edit::RelAdd(i, r),
                    _ if v.is_empty() => return None,
                    1 => Edit::RelSet(i, c.idx(v.len()), r),
                    _ => Edit::RelDel(i, c.idx(v.len())),
                }
            }
            21 => {
                let i = pick(c, &m.secs, |_, s| !s.deleted && matches!(s.kind, Kind::Dyn(_)))?;
                let Kind::Dyn(v) = &m.secs[i].kind else { return None };
                if v.is_empty() {
                    return None;
                }
                let k = c.idx(v.len());
                let val = c.u64() & w;
                match (c.below(4), &v[k].1) {
                    (0, _) => Edit::DynDel(i, k),
                    (1, _) => {
                        let string = c.chance(1, 2);
                        let (t, x) = if string { (*c.pick(&[1u64, 14, 29]), DVal::Str(name(c))) } else { (*c.pick(&[21u64, 30, 0x6fff_fffb]), DVal::Int(val)) };
                        Edit::DynAdd(i, c.idx(v.len() + 1), t, x)
                    }
                    (_, DVal::Int(_)) => Edit::DynSet(i, k, DVal::Int(val)),
                    (_, DVal::Str(s)) => {
                        // a tail of the string needs no more room
                        let n = c.idx(s.len() + 1);
                        Edit::DynSet(i, k, DVal::Str(if c.chance(1, 2) { s[n..].to_vec() } else { name(c) }))
                    }
                    (_, DVal::Auto) => return None,
                }
            }
            22 => Edit::Head(c.u64() & w, c.below(1 << 32) as u32, c.below(20) as u8, c.below(4) as u8),
            23 => Edit::SegFlags(pick(c, &m.segs, |i, _| !m.seg_deleted[i])?, c.below(8) as u32, 1 << c.below(17)),
            24 => match c.below(3) {
                0 => Edit::DelSeg(pick(c, &m.segs, |i, _| !m.seg_deleted[i])?),
                1 => {
                    if m.table(T::Hash).is_none() && m.table(T::GnuHash).is_none() {
                        return None;
                    }
                    let g = m.gnu;
                    Edit::Hash(1 + c.below(u64::from(m.hash_buckets.max(1))) as u32, (1 + c.below(u64::from(g.0.max(1))) as u32, if c.chance(1, 2) { c.below(20).min(1) as u32 } else { g.1 }, c.below(34) as u32))
                }
                _ => Edit::Strip,
            },
            25 => Edit::VerRename(pick(c, &m.vers, |i, _| !m.ver_deleted[i])?, name(c)),
            _ => {
                m.table(T::Verneed)?;
                Edit::AddNeed(name(c), name(c), pick(c, &m.dyns, |_, s| !s.deleted)?)
            }
        })
    }

    pub fn model(&self, m: &mut Model) {
        let w = m.h.is64;
        fn new_sec(name: &[u8], ty: u32, kind: Kind) -> Sec {
            Sec { name: name.to_vec(), ty, flags: 0, addr: 0, offset: 0, size: 0, link: None, info: 0, info_link: None, align: 0, entsize: 0, kind, deleted: false, added: true }
        }
        fn tab<'m>(m: &'m mut Model, d: bool) -> &'m mut Vec<Sym> {
            if d { &mut m.dyns } else { &mut m.syms }
        }
        match self.clone() {
            Edit::DelSec(s) => m.secs[s].deleted = true,
            Edit::RenameSec(s, n) => m.secs[s].name = n,
            Edit::SecData(s, d) => m.secs[s].kind = Kind::Data(d),
            Edit::SecFields(s, f, a, e, i) => {
                let s = &mut m.secs[s];
                (s.flags, s.align, s.entsize) = (f, a, e);
                if s.info_link.is_none() {
                    s.info = i;
                }
            }
            Edit::AddData { name, note, flags, align, entsize, data, link } => {
                let s = new_sec(&name, if note { 7 } else { 1 }, Kind::Data(data));
                m.secs.push(Sec { flags, align, entsize, link, ..s });
            }
            Edit::AddNoBits(n, size, align) => {
                let s = new_sec(&n, 8, Kind::NoBits(size));
                m.secs.push(Sec { align, ..s });
            }
            Edit::AddRelocs { name, rela, target, entries } => {
                let link = m.table(T::Symtab);
                let s = new_sec(&name, if rela { 4 } else { 9 }, Kind::Relocs(false, entries));
                let entsize = (if rela { 3 } else { 2 }) * if w { 8 } else { 4 };
                let flags = if target.is_some() { INFO_LINK } else { 0 };
                m.secs.push(Sec { flags, link, info_link: target, align: if w { 8 } else { 4 }, entsize, ..s });
            }
            Edit::AddAttrs(n, a) => {
                let s = new_sec(&n, 0x6fff_fff5, Kind::Attr(a));
                m.secs.push(Sec { align: 1, ..s });
            }
            Edit::DelSym(d, i) => tab(m, d)[i].deleted = true,
            Edit::RenameSym(d, i, n) => tab(m, d)[i].name = n,
            Edit::SymFields(d, i, info, other, value, size) => {
                let s = &mut tab(m, d)[i];
                (s.info, s.other, s.value, s.size) = (info, other, value, size);
            }
            Edit::SymPlace(d, i, sect, shndx) => {
                let s = &mut tab(m, d)[i];
                s.sect = sect;
                s.shndx = if sect.is_some() { 0 } else { shndx };
            }
            Edit::AddSym(d, s) => tab(m, d).push(s),
            Edit::SymVer(i, v, h) => (m.dyns[i].ver, m.dyns[i].hidden) = (v, h),
            Edit::RelDel(s, k) => {
                if let Kind::Relocs(_, v) = &mut m.secs[s].kind {
                    v.remove(k);
                }
            }
            Edit::RelAdd(s, r) => {
                if let Kind::Relocs(_, v) = &mut m.secs[s].kind {
                    v.push(r);
                }
            }
            Edit::RelSet(s, k, r) => {
                if let Kind::Relocs(_, v) = &mut m.secs[s].kind {
                    v[k] = r;
                }
            }
            Edit::DynSet(s, k, x) => {
                if let Kind::Dyn(v) = &mut m.secs[s].kind {
                    v[k].1 = x;
                }
            }
            Edit::DynDel(s, k) => {
                if let Kind::Dyn(v) = &mut m.secs[s].kind {
                    v.remove(k);
                }
            }
            Edit::DynAdd(s, k, t, x) => {
                if let Kind::Dyn(v) = &mut m.secs[s].kind {
                    v.insert(k, (t, x));
                }
            }
            Edit::Head(e, f, o, a) => (m.h.entry, m.h.flags, m.h.os_abi, m.h.abi_version) = (e, f, o, a),
            Edit::SegFlags(s, f, a) => (m.segs[s].flags, m.segs[s].align) = (f, a),
            Edit::DelSeg(s) => m.seg_deleted[s] = true,
            Edit::Hash(n, g) => (m.hash_buckets, m.gnu) = (n, g),
            Edit::VerRename(v, n) => match &mut m.vers[v] {
                Ver::Def { names, .. } => {
                    if let Some(x) = names.first_mut() {
                        *x = n
                    }
                }
                Ver::Need { name, .. } => *name = n,
            },
            Edit::AddNeed(file, name, sym) => {
                let f = m.files.len();
                m.files.push(file);
                m.file_deleted.push(false);
                m.vers.push(Ver::Need { flags: 0, name, file: f });
                m.ver_deleted.push(false);
                m.dyns[sym].ver = m.vers.len() + 1;
                m.dyns[sym].hidden = false;
            }
            Edit::AddTable(t, n) => {
                let ty = match t {
                    T::Symtab => 2,
                    T::Shndx => 18,
                    _ => 3,
                };
                m.secs.push(new_sec(&n, ty, Kind::Table(t)));
            }
            Edit::Strip => {
                for s in &mut m.syms {
                    s.deleted = true;
                }
                let st = m.table(T::Symtab);
                for s in &mut m.secs {
                    let linked = s.link == st && st.is_some() && !matches!(s.kind, Kind::Table(_));
                    if matches!(s.kind, Kind::Table(T::Symtab | T::Shndx | T::Strtab)) || matches!(s.kind, Kind::Relocs(false, _)) || linked {
                        s.deleted = true;
                    }
                }
            }
        }
    }

    pub fn builder<'d>(&self, b: &mut be::Builder<'d>, ids: &mut Ids, m: &Model) {
        fn bs(v: Vec<u8>) -> ByteString<'static> {
            ByteString::from(v)
        }
        let relo = |ids: &Ids, r: &Rel| be::Relocation { r_offset: r.offset, symbol: r.sym.map(|s| ids.syms[s]), r_type: elf::RelocationType(r.ty), r_addend: r.addend };
        let relod = |ids: &Ids, r: &Rel| be::DynamicRelocation { r_offset: r.offset, symbol: r.sym.map(|s| ids.dyns[s]), r_type: elf::RelocationType(r.ty), r_addend: r.addend };
        fn set_sym<'d, const D: bool>(y: &mut be::Symbol<'d, D>, s: &Sym, ids: &Ids) {
            y.name = bs(s.name.clone());
            y.st_info = elf::SymbolInfo(s.info);
            y.st_other = elf::SymbolOther(s.other);
            y.section = s.sect.map(|s| ids.secs[s]);
            y.st_shndx = elf::SymbolSection(s.shndx);
            y.st_value = s.value;
            y.st_size = s.size;
        }
        let dval = |t: u64, x: &DVal| match x {
            DVal::Int(v) => be::Dynamic::Integer { tag: elf::DynamicTag(t as _), val: *v },
            DVal::Str(s) => be::Dynamic::String { tag: elf::DynamicTag(t as _), val: bs(s.clone()) },
            DVal::Auto => be::Dynamic::Auto { tag: elf::DynamicTag(t as _) },
        };
        match self.clone() {
            Edit::DelSec(s) => b.sections.get_mut(ids.secs[s]).delete = true,
            Edit::RenameSec(s, n) => b.sections.get_mut(ids.secs[s]).name = bs(n),
            Edit::SecData(s, d) => {
                let s = b.sections.get_mut(ids.secs[s]);
                match &mut s.data {
                    be::SectionData::Data(x) | be::SectionData::Note(x) => {
                        // both ways of changing bytes
                        if d.len() == x.len() {
                            x.to_mut().copy_from_slice(&d)
                        } else {
                            *x = Bytes::from(d)
                        }
                    }
                    _ => {}
                }
            }
            Edit::SecFields(s, f, a, e, i) => {
                let s = b.sections.get_mut(ids.secs[s]);
                s.sh_flags = elf::SectionFlags(f as _);
                s.sh_addralign = a;
                s.sh_entsize = e;
                if s.sh_info_section.is_none() {
                    s.sh_info = i;
                }
            }
            Edit::AddData { name, note, flags, align, entsize, data, link } => {
                let s = b.sections.add();
                s.name = bs(name);
                s.sh_type = if note { elf::SHT_NOTE } else { elf::SHT_PROGBITS };
                s.sh_flags = elf::SectionFlags(flags as _);
                s.sh_addralign = align;
                s.sh_entsize = entsize;
                s.sh_link_section = link.map(|l| ids.secs[l]);
                s.data = if note { be::SectionData::Note(Bytes::from(data)) } else { be::SectionData::Data(Bytes::from(data)) };
                ids.secs.push(s.id());
            }
            Edit::AddNoBits(n, size, align) => {
                let s = b.sections.add();
                s.name = bs(n);
                s.sh_type = elf::SHT_NOBITS;
                s.sh_addralign = align;
                s.data = be::SectionData::UninitializedData(size);
                ids.secs.push(s.id());
            }
            Edit::AddRelocs { name, rela, target, entries } => {
                let k = m.secs.len() - 1;
                let s = b.sections.add();
                s.name = bs(name);
                s.sh_type = if rela { elf::SHT_RELA } else { elf::SHT_REL };
                s.sh_flags = elf::SectionFlags(m.secs[k].flags as _);
                s.sh_addralign = m.secs[k].align;
                s.sh_entsize = m.secs[k].entsize;
                s.sh_link_section = m.secs[k].link.map(|l| ids.secs[l]);
                s.sh_info_section = target.map(|t| ids.secs[t]);
                s.data = be::SectionData::Relocation(entries.iter().map(|r| relo(ids, r)).collect());
                ids.secs.push(s.id());
            }
            Edit::AddAttrs(n, a) => {
                let s = b.sections.add();
                s.name = bs(n);
                s.sh_type = elf::SHT_GNU_ATTRIBUTES;
                s.sh_addralign = 1;
                let mut x = be::AttributesSection::new();
                for a in a {
                    let mut u = be::AttributesSubsection::new(bs(a.vendor));
                    for (scope, d) in a.subs {
                        let scope = match scope {
                            Scope::File => be::AttributeScope::File,
                            Scope::Section(l) => be::AttributeScope::Section(l.iter().map(|i| ids.secs[*i]).collect()),
                            Scope::Symbol(l) => be::AttributeScope::Symbol(l.iter().map(|i| ids.syms[*i]).collect()),
                        };
                        u.subsubsections.push(be::AttributesSubsubsection { scope, data: Bytes::from(d) });
                    }
                    x.subsections.push(u);
                }
                s.data = be::SectionData::Attributes(x);
                ids.secs.push(s.id());
            }
            Edit::DelSym(true, i) => b.dynamic_symbols.get_mut(ids.dyns[i]).delete = true,
            Edit::DelSym(false, i) => b.symbols.get_mut(ids.syms[i]).delete = true,
            Edit::RenameSym(true, i, n) => b.dynamic_symbols.get_mut(ids.dyns[i]).name = bs(n),
            Edit::RenameSym(false, i, n) => b.symbols.get_mut(ids.syms[i]).name = bs(n),
            Edit::SymFields(true, i, ..) | Edit::SymPlace(true, i, ..) => set_sym(b.dynamic_symbols.get_mut(ids.dyns[i]), &m.dyns[i], ids),
            Edit::SymFields(false, i, ..) | Edit::SymPlace(false, i, ..) => set_sym(b.symbols.get_mut(ids.syms[i]), &m.syms[i], ids),
            Edit::AddSym(true, s) => {
                let y = b.dynamic_symbols.add();
                set_sym(y, &s, ids);
                ids.dyns.push(y.id());
            }
            Edit::AddSym(false, s) => {
                let y = b.symbols.add();
                set_sym(y, &s, ids);
                ids.syms.push(y.id());
            }
            Edit::SymVer(i, v, h) => {
                let y = b.dynamic_symbols.get_mut(ids.dyns[i]);
                y.version = match v {
                    0 => be::VersionId::local(),
                    1 => be::VersionId::global(),
                    _ => ids.vers[v - 2],
                };
                y.version_hidden = h;
            }
            Edit::RelDel(s, k) => match &mut b.sections.get_mut(ids.secs[s]).data {
                be::SectionData::Relocation(v) => drop(v.remove(k)),
                be::SectionData::DynamicRelocation(v) => drop(v.remove(k)),
                _ => {}
            },
            Edit::RelAdd(s, r) => match &mut b.sections.get_mut(ids.secs[s]).data {
                be::SectionData::Relocation(v) => v.push(relo(ids, &r)),
                be::SectionData::DynamicRelocation(v) => v.push(relod(ids, &r)),
                _ => {}
            },
            Edit::RelSet(s, k, r) => match &mut b.sections.get_mut(ids.secs[s]).data {
                be::SectionData::Relocation(v) => v[k] = relo(ids, &r),
                be::SectionData::DynamicRelocation(v) => v[k] = relod(ids, &r),
                _ => {}
            },
            Edit::DynSet(s, k, x) => {
                if let be::SectionData::Dynamic(v) = &mut b.sections.get_mut(ids.secs[s]).data {
                    let t = v[k].tag().0 as u64;
                    v[k] = dval(t, &x);
                }
            }
            Edit::DynDel(s, k) => {
                if let be::SectionData::Dynamic(v) = &mut b.sections.get_mut(ids.secs[s]).data {
                    v.remove(k);
                }
            }
            Edit::DynAdd(s, k, t, x) => {
                if let be::SectionData::Dynamic(v) = &mut b.sections.get_mut(ids.secs[s]).data {
                    v.insert(k, dval(t, &x));
                }
            }
            Edit::Head(e, f, o, a) => {
                b.header.e_entry = e;
                b.header.e_flags = elf::FileFlags(f);
                b.header.os_abi = elf::OsAbi(o);
                b.header.abi_version = a;
            }
            Edit::SegFlags(s, f, a) => {
                let s = b.segments.get_mut(ids.segs[s]);
                s.p_flags = elf::ProgramFlags(f);
                s.p_align = a;
            }
            Edit::DelSeg(s) => b.segments.get_mut(ids.segs[s]).delete = true,
            Edit::Hash(n, g) => {
                b.hash_bucket_count = n;
                b.gnu_hash_bucket_count = g.0;
                b.gnu_hash_bloom_count = g.1;
                b.gnu_hash_bloom_shift = g.2;
            }
            Edit::VerRename(v, n) => match &mut b.versions.get_mut(ids.vers[v]).data {
                be::VersionData::Def(d) => {
                    if let Some(x) = d.names.first_mut() {
                        *x = bs(n)
                    }
                }
                be::VersionData::Need(d) => d.name = bs(n),
            },
            Edit::AddNeed(file, name, sym) => {
                let f = b.version_files.add(bs(file));
                let v = b.versions.add(be::VersionData::Need(be::VersionNeed { file: f, name: bs(name), flags: elf::VersionFlags(0) }));
                ids.vers.push(v);
                let y = b.dynamic_symbols.get_mut(ids.dyns[sym]);
                y.version = v;
                y.version_hidden = false;
            }
            Edit::AddTable(t, n) => {
                let s = b.sections.add();
                s.name = bs(n);
                (s.sh_type, s.data) = match t {
                    T::Symtab => (elf::SHT_SYMTAB, be::SectionData::Symbol),
                    T::Shndx => (elf::SHT_SYMTAB_SHNDX, be::SectionData::SymbolSectionIndex),
                    T::Strtab => (elf::SHT_STRTAB, be::SectionData::String),
                    _ => (elf::SHT_STRTAB, be::SectionData::SectionString),
                };
                ids.secs.push(s.id());
            }
            Edit::Strip => {
                for y in &mut b.symbols {
                    y.delete = true;
                }
                for (k, s) in m.secs.iter().enumerate() {
                    if s.deleted {
                        b.sections.get_mut(ids.secs[k]).delete = true;
                    }
                }
            }
        }
    }
}

pub struct Ids {
    pub secs: Vec<be::SectionId>,
    pub syms: Vec<be::SymbolId>,
    pub dyns: Vec<be::DynamicSymbolId>,
    pub vers: Vec<be::VersionId>,
    pub segs: Vec<be::SegmentId>,
}

impl Ids {
    pub fn of(b: &be::Builder<'_>) -> Ids {
        let i = Ids {
            secs: b.sections.iter().map(|s| s.id()).collect(),
            syms: b.symbols.iter().map(|s| s.id()).collect(),
            dyns: b.dynamic_symbols.iter().map(|s| s.id()).collect(),
            vers: b.versions.iter().map(|s| s.id()).collect(),
            segs: b.segments.iter().map(|s| s.id()).collect(),
        };
        debug_assert!(i.secs.iter().enumerate().all(|(k, s)| s.index() == k));
        i
    }
}

/// What writing does besides: things that refer to deleted things go away.
pub fn finalize(m: &mut Model) {
    for (i, g) in m.segs.iter().enumerate() {
        let members: Vec<&Sec> = m.secs.iter().filter(|s| !s.added && m.in_seg(s, g)).collect();
        if !members.is_empty() && !m.seg_deleted[i] {
            m.seg_deleted[i] = members.iter().all(|s| s.deleted);
        }
    }
    let secs: Vec<bool> = m.secs.iter().map(|s| s.deleted).collect();
    for s in m.syms.iter_mut().chain(&mut m.dyns) {
        s.deleted |= s.sect.is_some_and(|i| secs[i]);
    }
    let have = |t| m.secs.iter().any(|s| s.kind == Kind::Table(t) && !s.deleted);
    let (dynsym, dynstr, hash, gnu, versym, verdef, verneed) =
        (have(T::Dynsym), have(T::Dynstr), have(T::Hash), have(T::GnuHash), have(T::Versym), have(T::Verdef), have(T::Verneed));
    for s in &mut m.secs {
        match &mut s.kind {
            Kind::Relocs(d, v) => {
                let t = if *d { &m.dyns } else { &m.syms };
                v.retain(|r| r.sym.is_none_or(|i| !t[i].deleted));
            }
            Kind::Dyn(v) => v.retain(|(t, x)| {
                *x != DVal::Auto
                    || match *t {
                        6 => dynsym,
                        5 | 10 => dynstr,
                        4 => hash,
                        0x6fff_fef5 => gnu,
                        0x6fff_fff0 => versym,
                        0x6fff_fffc | 0x6fff_fffd => verdef,
                        _ => verneed,
                    }
            }),
            Kind::Attr(v) => {
                for (scope, _) in v.iter_mut().flat_map(|a| &mut a.subs) {
                    match scope {
                        Scope::Section(l) => l.retain(|i| !secs[*i]),
                        Scope::Symbol(l) => l.retain(|i| !m.syms[*i].deleted),
                        Scope::File => {}
                    }
                }
            }
            _ => {}
        }
    }
    let mut used = vec![false; m.vers.len() + 2];
    for s in m.dyns.iter().filter(|s| !s.deleted) {
        used[s.ver] = true;
    }
    let mut files = vec![false; m.files.len()];
    for (i, v) in m.vers.iter().enumerate() {
        if let Ver::Need { name, .. } = v {
            used[i + 2] |= name == b"GLIBC_ABI_DT_RELR";
        }
        m.ver_deleted[i] |= !used[i + 2];
        if let (Ver::Need { file, .. }, false) = (v, m.ver_deleted[i]) {
            files[*file] = true;
        }
    }
    for (i, f) in files.iter().enumerate() {
        m.file_deleted[i] |= !f;
    }
    m.has_versym = versym;
}

/// Reasons for which a (finalized) model cannot be written, other than the layout.
pub fn refusal(m: &Model) -> Option<String> {
    let live = || m.secs.iter().filter(|s| !s.deleted);
    let have = |t| m.table(t).is_some();
    for s in live() {
        if matches!(s.kind, Kind::Table(_)) {
            continue;
        }
        for l in [s.link, s.info_link].into_iter().flatten() {
            if m.secs[l].deleted {
                return Some(format!("{} links to the deleted {}", lossy(&s.name), lossy(&m.secs[l].name)));
            }
        }
    }
    if live().next().is_some() && !have(T::Shstr) {
        return Some("no section name table".into());
    }
    if let Some(s) = live().find(|s| s.flags & ALLOC == 0 && matches!(s.kind, Kind::Relocs(true, _) | Kind::Dyn(_))) {
        return Some(format!("the dynamic section {} is not loaded", lossy(&s.name)));
    }
    let some = |v: &[Sym]| v.iter().any(|s| !s.deleted);
    let named = |v: &[Sym]| v.iter().any(|s| !s.deleted && !s.name.is_empty());
    if some(&m.syms) && !have(T::Symtab) || named(&m.syms) && !have(T::Strtab) {
        return Some("no symbol or string table".into());
    }
    let users = have(T::Hash) || have(T::GnuHash) || have(T::Versym);
    if (some(&m.dyns) || users) && !have(T::Dynsym) {
        return Some("no dynamic symbol table".into());
    }
    let dynstr = named(&m.dyns) || live().any(|s| matches!(&s.kind, Kind::Dyn(v) if v.iter().any(|(_, x)| matches!(x, DVal::Str(_))))) || m.base.is_some() || m.ver_deleted.iter().any(|d| !d);
    if dynstr && !have(T::Dynstr) {
        return Some("no dynamic string table".into());
    }
    // the lookup table only has symbols that are defined
    if have(T::GnuHash) && (m.gnu.1 == 0 || m.gnu.2 >= 32) && m.dyns.iter().any(|s| !s.deleted && s.info >> 4 != 0 && !s.name.is_empty() && (s.sect.is_some() || s.shndx != 0)) {
        return Some("the Bloom filter cannot be made".into());
    }
    let kept = |def: bool| m.vers.iter().zip(&m.ver_deleted).any(|(v, d)| !d && matches!(v, Ver::Def { .. }) == def);
    if (kept(true) || m.base.is_some()) && !have(T::Verdef) || kept(false) && !have(T::Verneed) {
        return Some("no version table".into());
    }
    None
}

pub fn kept<'a>(m: &'a Model) -> Vec<usize> {
    (0..m.secs.len()).filter(|i| !m.secs[*i].deleted).collect()
}

fn multiset<T: Ord>(v: impl Iterator<Item = T>) -> BTreeMap<T, usize> {
    let mut b = BTreeMap::new();
    for x in v {
        *b.entry(x).or_default() += 1;
    }
    b
}

fn differ<T: Ord + std::fmt::Debug>(want: &BTreeMap<T, usize>, got: &BTreeMap<T, usize>) -> Option<String> {
    for (k, n) in want {
        if got.get(k) != Some(n) {
            return Some(format!("{k:?} is there {} times, not {n}", got.get(k).unwrap_or(&0)));
        }
    }
    got.keys().find(|k| !want.contains_key(k)).map(|k| format!("{k:?} is new"))
}

/// Compare what was written with what was to be written. `moved`: sections may have been moved to make room.
pub fn compare(tag: &str, e: &Model, o: &Model, moved: bool) -> R {
    let segless = e.segs.iter().zip(&e.seg_deleted).all(|(_, d)| *d);
    let mut h = e.h.clone();
    if segless && !moved {
        h.phoff = 0;
    }
    ensure!(h == o.h, "header", "{tag}: header {:x?}, not {:x?}", o.h, h);
    if let Some(p) = o.problems.first() {
        return violation("inconsistent-tables", format!("{tag}: {p}"));
    }
    let keep = kept(e);
    ensure!(keep.len() == o.secs.len(), "sections", "{tag}: {} sections, not {}", o.secs.len(), keep.len());
    // numbering: output index -> model index
    let back = |i: usize| keep.get(i).copied().unwrap_or(usize::MAX);
    let same = |i: usize| i;
    for dynamic in [false, true] {
        let (a, b) = if dynamic { (&e.dyns, &o.dyns) } else { (&e.syms, &o.syms) };
        let want = multiset(a.iter().filter(|s| !s.deleted).map(|s| e.sym_desc(s, &same, dynamic)));
        let got = multiset(b.iter().map(|s| o.sym_desc(s, &back, dynamic)));
        if let Some(d) = differ(&want, &got) {
            return violation("symbols", format!("{tag}: {}symbol {d}", if dynamic { "dynamic " } else { "" }));
        }
    }
    for (k, (i, g)) in keep.iter().zip(&o.secs).enumerate() {
        let w = &e.secs[*i];
        let n = lossy(&w.name);
        ensure!(w.name == g.name, "section-name", "{tag}: section {k} is {:?}, not {n:?}", lossy(&g.name));
        ensure!(w.ty == g.ty, "section-type", "{tag}: {n} has type {:x}, not {:x}", g.ty, w.ty);
        ensure!(w.flags == g.flags, "section-flags", "{tag}: {n} has flags {:x}, not {:x}", g.flags, w.flags);
        let link = g.link.map(back);
        if let Kind::Table(t) = w.kind {
            let want = match t {
                T::Symtab => e.table(T::Strtab),
                T::Shndx => e.table(T::Symtab),
                T::Dynsym | T::Verdef | T::Verneed => e.table(T::Dynstr),
                T::Hash | T::GnuHash | T::Versym => e.table(T::Dynsym),
                T::Strtab | T::Shstr | T::Dynstr => None,
            };
            ensure!(link == want, "section-link", "{tag}: {n} links to {link:?}, not {want:?}");
        } else {
            ensure!(link == w.link, "section-link", "{tag}: {n} links to {link:?}, not {:?}", w.link);
            ensure!(g.info_link.map(back) == w.info_link, "section-info-link", "{tag}: {n} has info link {:?}, not {:?}", g.info_link.map(back), w.info_link);
            ensure!(w.info_link.is_some() || g.info == w.info, "section-info", "{tag}: {n} has info {}, not {}", g.info, w.info);
            ensure!((g.align, g.entsize) == (w.align, w.entsize), "section-fields", "{tag}: {n} has align {} entsize {}, not {} and {}", g.align, g.entsize, w.align, w.entsize);
        }
        let fixed = match &w.kind {
            Kind::Table(_) => false,
            Kind::Data(_) => !moved || (!e.segs.iter().any(|p| p.ty == 3 && e.in_seg(w, p)) && w.ty != 7),
            _ => true,
        };
        if w.flags & ALLOC != 0 && (fixed || !moved) {
            ensure!(w.addr == g.addr, "section-address", "{tag}: {n} is at address {:x}, not {:x}", g.addr, w.addr);
            ensure!(segless || w.offset == g.offset, "section-offset", "{tag}: {n} is at offset {:x}, not {:x}", g.offset, w.offset);
        }
        let rel = |m: &Model, d: bool, v: &[Rel], ids: &dyn Fn(usize) -> usize| -> Vec<String> {
            let t = if d { &m.dyns } else { &m.syms };
            v.iter().map(|r| format!("{:x} type {:x} addend {:x} {:?}", r.offset, r.ty, r.addend, r.sym.map(|s| m.sym_desc(&t[s], ids, d)))).collect()
        };
        let scopes = |m: &Model, v: &[Attr], ids: &dyn Fn(usize) -> usize| -> Vec<String> {
            v.iter()
                .map(|a| {
                    let l: Vec<String> = a
                        .subs
                        .iter()
                        .map(|(s, d)| match s {
                            Scope::File => format!("file {d:?}"),
                            Scope::Section(l) => format!("sections {:?} {d:?}", l.iter().map(|i| ids(*i)).collect::<Vec<_>>()),
                            Scope::Symbol(l) => format!("symbols {:?} {d:?}", l.iter().map(|i| m.sym_desc(&m.syms[*i], ids, false)).collect::<Vec<_>>()),
                        })
                        .collect();
                    format!("{} {l:?}", lossy(&a.vendor))
                })
                .collect()
        };
        match (&w.kind, &g.kind) {
            (Kind::Table(a), Kind::Table(b)) => ensure!(a == b, "section-kind", "{tag}: {n} serves as {b:?}, not {a:?}"),
            // a table that has lost its user is just data
            (Kind::Table(T::Shndx), Kind::Data(d)) if e.table(T::Symtab).is_none() && d.is_empty() => {}
            (Kind::Table(T::Strtab | T::Dynstr), Kind::Data(_)) if e.table(T::Symtab).is_none() || e.table(T::Dynsym).is_none() => {}
            (Kind::Data(a), Kind::Data(b)) => ensure!(a == b, "section-data", "{tag}: {n} has {} bytes that differ from the {} given", b.len(), a.len()),
            (Kind::NoBits(a), Kind::NoBits(b)) => ensure!(a == b, "section-size", "{tag}: {n} has size {b}, not {a}"),
            (Kind::Relocs(d, a), Kind::Relocs(d2, b)) => {
                let (x, y) = (rel(e, *d, a, &same), rel(o, *d2, b, &back));
                let at = x.iter().zip(&y).position(|(x, y)| x != y);
                ensure!(x.len() == y.len() && at.is_none(), "relocations", "{tag}: {n}: {} relocations, not {}; {:?}", y.len(), x.len(), at.map(|i| (&y[i], &x[i])));
            }
            (Kind::Dyn(a), Kind::Dyn(b)) => {
                let at = a.iter().zip(b).position(|(x, y)| x != y);
                ensure!(a.len() == b.len() && at.is_none(), "dynamic", "{tag}: {n}: {} entries, not {}; {:x?}", b.len(), a.len(), at.map(|i| (&b[i], &a[i])));
            }
            (Kind::Attr(a), Kind::Attr(b)) => {
                let (x, y) = (scopes(e, a, &same), scopes(o, b, &back));
                ensure!(x == y, "attributes", "{tag}: {n}: {y:?}, not {x:?}");
            }
            _ => return violation("section-kind", format!("{tag}: {n} is {:?}, not {:?}", g.kind, w.kind)),
        }
    }
    // Versions
    let want = multiset((0..e.vers.len()).filter(|i| !e.ver_deleted[*i]).map(|i| e.ver_desc(i + 2)));
    let got = multiset((0..o.vers.len()).map(|i| o.ver_desc(i + 2)));
    if let Some(d) = differ(&want, &got) {
        return violation("versions", format!("{tag}: version {d}"));
    }
    ensure!(e.base == o.base, "versions", "{tag}: base version {:?}, not {:?}", o.base, e.base);
    let want = multiset(e.files.iter().zip(&e.file_deleted).filter(|(_, d)| !**d).map(|(f, _)| lossy(f)));
    if let Some(d) = differ(&want, &multiset(o.files.iter().map(|f| lossy(f)))) {
        return violation("versions", format!("{tag}: version file {d}"));
    }
    if e.table(T::Hash).is_some() {
        ensure!(e.hash_buckets == o.hash_buckets, "hash-parameters", "{tag}: {} buckets, not {}", o.hash_buckets, e.hash_buckets);
    }
    if e.table(T::GnuHash).is_some() {
        ensure!(e.gnu == o.gnu, "hash-parameters", "{tag}: {:?}, not {:?}", o.gnu, e.gnu);
    }
    if !moved {
        let want: Vec<&Seg> = e.segs.iter().zip(&e.seg_deleted).filter(|(_, d)| !**d).map(|(s, _)| s).collect();
        ensure!(want.len() == o.segs.len(), "segments", "{tag}: {} segments, not {}", o.segs.len(), want.len());
        for (i, (a, b)) in want.iter().zip(&o.segs).enumerate() {
            ensure!(*a == b, "segments", "{tag}: segment {i} is {b:x?}, not {a:x?}");
        }
    }
    layout(tag, o)
}

/// Nothing overlaps, everything is inside the file and aligned as it says.
pub fn layout(tag: &str, o: &Model) -> R {
    let (eh, ph, sh) = if o.h.is64 { (64u64, 56u64, 64u64) } else { (52, 32, 40) };
    let mut v = vec![(0, eh, "the file header".to_string())];
    if !o.segs.is_empty() {
        v.push((o.h.phoff, ph * o.segs.len() as u64, "the program headers".into()));
    }
    if o.shoff != 0 {
        v.push((o.shoff, sh * (o.secs.len() as u64 + 1), "the section headers".into()));
        let a = if o.h.is64 { 8 } else { 4 };
        ensure!(o.shoff % a == 0, "alignment", "{tag}: section headers at {:x}", o.shoff);
    }
    for s in &o.secs {
        if !matches!(s.kind, Kind::NoBits(_)) && s.size > 0 {
            v.push((s.offset, s.size, lossy(&s.name)));
            ensure!(s.align < 2 || s.offset % s.align == 0, "alignment", "{tag}: {} at offset {:x} with alignment {}", lossy(&s.name), s.offset, s.align);
        }
    }
    v.sort();
    for p in v.windows(2) {
        ensure!(p[0].0 + p[0].1 <= p[1].0, "overlap", "{tag}: {} at {:x}+{:x} overlaps {} at {:x}", p[0].2, p[0].0, p[0].1, p[1].2, p[1].0);
    }
    let l = v.last().unwrap();
    ensure!(l.0 + l.1 <= o.len, "past-end", "{tag}: {} ends after the file", l.2);
    Ok(())
}

fn benign_sink(ctx: &mut Ctx) -> SinkCfg {
    SinkCfg { short: ctx.c.below(20), eintr: ctx.c.below(8), one_byte: ctx.c.chance(1, 6), fail_at: u64::MAX, ..Default::default() }
}

/// Write, to memory or to a simulated file that interrupts and shortens writes.
fn write_out(ctx: &mut Ctx, b: be::Builder<'_>) -> Result<Vec<u8>, String> {
    if ctx.c.chance(1, 2) {
        let mut v = Vec::new();
        b.write(&mut v).map_err(|e| e.to_string())?;
        Ok(v)
    } else {
        let cfg = benign_sink(ctx);
        let mut sink = SimSink::new(ctx, cfg);
        let mut buf = StreamingBuffer::new(&mut sink);
        b.write(&mut buf).map_err(|e| e.to_string())?;
        buf.result().map_err(|e| format!("the stream: {e}"))?;
        Ok(sink.data)
    }
}

/// One round: read, edit, write. None: refused for a good reason.
fn round(ctx: &mut Ctx, tag: &str, data: &[u8], m0: &Model, lead: Vec<Edit>, max_edits: u64) -> R<Option<Vec<u8>>> {
    let mut m = m0.clone();
    let mut edits = Vec::new();
    let mut risky = false;
    let mut lead = lead.into_iter();
    let n = lead.len() as u64 + ctx.c.below(max_edits + 1);
    for _ in 0..n {
        if let Some(e) = lead.next().or_else(|| Edit::draw(&mut ctx.c, &m)) {
            ctx.ev(|| format!("{e:?}").chars().take(160).collect());
            risky |= e.risky(&m);
            e.model(&mut m);
            edits.push((e, m.clone()));
        }
    }
    finalize(&mut m);
    // The builder does not add the table of extended indexes.
    risky |= m.secs.len() > 0xfe00 && !m.secs.iter().any(|s| s.ty == 18 && !s.deleted);
    let segless = !m.segs.is_empty() && m.seg_deleted.iter().all(|d| *d);
    let reason = refusal(&m);
    let shape: Vec<_> = edits.iter().map(|(e, _)| std::mem::discriminant(e)).collect();
    ctx.sig(fnv(format!("{tag}{shape:?}{}", m.secs.len()).as_bytes()));
    let apply = |ctx: &mut Ctx, b: Result<be::Builder<'_>, String>| -> R<Result<Vec<u8>, String>> {
        let mut b = match b {
            Ok(b) => b,
            Err(e) => return violation("unreadable", format!("{tag}: cannot be read: {e}")),
        };
        let mut ids = Ids::of(&b);
        for (e, after) in &edits {
            e.builder(&mut b, &mut ids, after);
        }
        Ok(write_out(ctx, b))
    };
    let r = if data.is_empty() {
        let endian = if m0.h.be { object::Endianness::Big } else { object::Endianness::Little };
        let mut b = be::Builder::new(endian, m0.h.is64);
        b.header.e_type = elf::FileType(m0.h.ty);
        b.header.e_machine = elf::Machine(m0.h.machine);
        apply(ctx, Ok(b))?
    } else if ctx.c.chance(1, 2) && m0.secs.len() + m0.syms.len() < 5000 {
        let cfg = SourceCfg::benign(ctx);
        let c: *mut Ctx = ctx;
        through_stream(ctx, data, cfg, |r| apply(unsafe { &mut *c }, be::Builder::read(r).map_err(|e| e.to_string())))?
    } else {
        apply(ctx, be::Builder::read(data).map_err(|e| e.to_string()))?
    };
    match r {
        Ok(out) => {
            if let Some(reason) = reason {
                return violation("inexpressible-accepted", format!("{tag}: written although {reason}"));
            }
            ctx.probe("rewritten");
            if edits.is_empty() {
                ctx.probe("rewritten_unchanged");
            }
            let Some(o) = Model::parse(&out) else { return violation("unreadable-output", format!("{tag}: the output is not a readable file")) };
            compare(tag, &m, &o, false)?;
            ctx.fold_bytes(&out);
            Ok(Some(out))
        }
        Err(e) => {
            ctx.ev(|| format!("refused: {e}"));
            ensure!(reason.is_some() || risky || segless, "refused", "{tag}: {e}");
            ctx.probe("refused");
            Ok(None)
        }
    }
}

pub fn models() -> &'static Vec<(&'static str, &'static [u8], Model)> {
    static M: OnceLock<Vec<(&'static str, &'static [u8], Model)>> = OnceLock::new();
    M.get_or_init(|| {
        let all = std::env::var("SIM_ALL_ELF").is_ok();
        CORPUS
            .iter()
            .filter(|(n, _)| if all { n.starts_with("elf-") } else { REWRITABLE.contains(n) })
            .filter_map(|(n, d)| Some((*n, *d, Model::parse(d)?)))
            .collect()
    })
}

/// An object file made by the writer.
pub fn generated(ctx: &mut Ctx) -> R<Option<(String, Vec<u8>, Model)>> {
    let t: Vec<describe::Target> = describe::targets().into_iter().filter(|t| t.fmt == object::BinaryFormat::Elf).collect();
    let t = t[ctx.c.idx(t.len())];
    let (b, _) = describe::build(ctx, t, &describe::GenOpts { max_ops: 40, relocs: true, invalid: 0 })?;
    let Ok(v) = b.obj.write() else { return Ok(None) };
    let Some(m) = Model::parse(&v) else { return violation("unreadable-input", format!("{}: the writer made a file that cannot be read", t.name())) };
    // what the builder does not claim to handle must still not make it fail badly
    let known = |t: u32| matches!(t, 1..=4 | 7..=9 | 14..=16 | 18);
    if m.secs.iter().any(|s| !known(s.ty) || s.link.is_some_and(|l| l >= m.secs.len()) || s.info_link.is_some_and(|l| l >= m.secs.len())) {
        let _ = be::Builder::read(&v[..]);
        return Ok(None);
    }
    Ok(Some((t.name(), v, m)))
}

fn c10_generated(ctx: &mut Ctx) -> R {
    let Some(g) = generated(ctx)? else { return Ok(()) };
    rounds(ctx, g.0, g.1, g.2)
}

/// A file with dynamic linking tables made by the low level writer, which the builder can read.
pub fn dynamic(ctx: &mut Ctx) -> Option<(String, Vec<u8>, Model)> {
    let v = crate::sc_dyn::tame_file(ctx);
    if v.is_empty() || be::Builder::read(&v[..]).is_err() {
        ctx.probe("input_refused");
        return None;
    }
    let m = Model::parse(&v)?;
    if !m.problems.is_empty() {
        ctx.probe("input_inconsistent");
        return None;
    }
    ctx.ev(|| format!("sections {:?}", m.secs.iter().map(|s| lossy(&s.name)).collect::<Vec<_>>()));
    Some(("dynamic".into(), v, m))
}

fn c10_dynamic(ctx: &mut Ctx) -> R {
    let Some(g) = dynamic(ctx) else { return Ok(()) };
    rounds(ctx, g.0, g.1, g.2)
}

/// So many sections that symbols need extended section indexes.
/// A file with about as many segments as the header can count, all but two of them empty.
fn many_segments(ctx: &mut Ctx) -> (usize, Vec<u8>) {
    let (is64, be) = (ctx.c.chance(1, 2), ctx.c.chance(1, 2));
    let n = 0xffff - 2 + ctx.c.idx(5);
    let mut o = Vec::new();
    let put = |o: &mut Vec<u8>, size: usize, v: u64| match be {
        true => o.extend(&v.to_be_bytes()[8 - size..]),
        false => o.extend(&v.to_le_bytes()[..size]),
    };
    let w = if is64 { 8 } else { 4 };
    let (eh, ph, sh) = if is64 { (64u64, 56u64, 64u64) } else { (52, 32, 40) };
    let data = (eh + ph * n as u64 + 15) & !15;
    let names = b"\0.data\0.shstrtab\0";
    let shoff = data + 48;
    o.extend([0x7f, b'E', b'L', b'F', 1 + u8::from(is64), 1 + u8::from(be), 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    for (s, v) in [(2, 2), (2, if is64 { 62 } else { 3 }), (4, 1), (w, 0x1000), (w, eh), (w, shoff), (4, 0), (2, eh), (2, ph), (2, (n as u64).min(0xffff)), (2, sh), (2, 3), (2, 2)] {
        put(&mut o, s, v);
    }
    for i in 0..n as u64 {
        let load = i == 0 || i + 1 == n as u64;
        let f = [u64::from(load), 4, data, 0x1000 + data, 0x1000 + data, if load { 16 } else { 0 }, if load { 16 } else { i }, 1];
        let order: &[usize] = if is64 { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 2, 3, 4, 5, 6, 1, 7] };
        for &k in order {
            put(&mut o, if k < 2 { 4 } else { w }, f[k]);
        }
    }
    o.resize(data as usize, 0);
    o.extend(*b"some data bytes!");
    o.extend(names);
    o.resize(shoff as usize, 0);
    let many = if n >= 0xffff { n as u64 } else { 0 };
    for f in [[0, 0, 0, 0, 0, 0, 0, many, 0, 0], [1, 1, 3, 0x1000 + data, data, 16, 0, 0, 16, 0], [7, 3, 0, 0, data + 16, names.len() as u64, 0, 0, 1, 0]] {
        for (k, v) in f.into_iter().enumerate() {
            put(&mut o, if matches!(k, 0 | 1 | 6 | 7) { 4 } else { w }, v);
        }
    }
    (n, o)
}

fn c10_bulk(ctx: &mut Ctx) -> R {
    if ctx.c.chance(1, 6) {
        let (n, v) = many_segments(ctx);
        let Some(m) = Model::parse(&v) else { return violation("unreadable-input", "many segments: the file cannot be read") };
        round(ctx, &format!("{n} segments"), &v, &m, Vec::new(), 4)?;
        return Ok(());
    }
    if ctx.c.chance(1, 2) {
        let Some(v) = crate::sc_bulk::crowded(ctx, object::BinaryFormat::Elf) else { return Ok(()) };
        let Some(m) = Model::parse(&v) else { return violation("unreadable-input", "many symbols: the writer made a file that cannot be read") };
        round(ctx, &format!("{} symbols", m.syms.len()), &v, &m, Vec::new(), 4)?;
        return Ok(());
    }
    use object::write::{Object, Symbol, SymbolSection};
    let arch = *ctx.c.pick(&[object::Architecture::X86_64, object::Architecture::I386, object::Architecture::PowerPc64]);
    let endian = if arch == object::Architecture::PowerPc64 { object::Endianness::Big } else { object::Endianness::Little };
    let mut o = Object::new(object::BinaryFormat::Elf, arch, endian);
    let n = if ctx.c.chance(1, 2) { 65277 - ctx.c.below(4) as usize } else { 65270 + ctx.c.below(20) as usize };
    let mut ids = Vec::new();
    for i in 0..n {
        let id = o.add_section(Vec::new(), format!("s{i}").into_bytes(), object::SectionKind::Data);
        if i % 4096 == 0 || i + 8 > n {
            o.append_section_data(id, &(i as u32).to_le_bytes(), 4);
        }
        ids.push(id);
    }
    let edge = n > 65279 && ctx.c.chance(1, 2);
    for k in 0..1 + ctx.c.below(12) {
        // section 65280 is the first that a symbol cannot name
        let i = if edge { 65279 - ctx.c.idx(3) } else if ctx.c.chance(1, 3) { ctx.c.idx(n) } else { n - 1 - ctx.c.idx(24) };
        o.add_symbol(Symbol {
            name: format!("y{k}").into_bytes(), value: k, size: 4, kind: object::SymbolKind::Data, scope: object::SymbolScope::Linkage, weak: false,
            section: SymbolSection::Section(ids[i]), flags: object::SymbolFlags::None,
        });
    }
    let Ok(v) = o.write() else { return Ok(()) };
    let Some(m) = Model::parse(&v) else { return violation("unreadable-input", format!("{n} sections: the writer made a file that cannot be read")) };
    // Sections are added beyond the limit, and symbols move into them.
    let mut lead = Vec::new();
    // Perhaps only into the first that they cannot name.
    let only = 65279usize.checked_sub(m.secs.len()).filter(|i| *i < 8 && ctx.c.chance(1, 2));
    for i in 0..only.map_or(0, |i| i as u64 + 1).max(ctx.c.below(8)) as usize {
        lead.push(Edit::AddData { name: format!("new{i}").into_bytes(), note: false, flags: 0, align: 1, entsize: 0, data: vec![i as u8], link: None });
        if only.map_or_else(|| ctx.c.chance(1, 3), |o| o == i) && !m.syms.is_empty() {
            lead.push(Edit::SymPlace(false, ctx.c.idx(m.syms.len()), Some(m.secs.len() + i), 0));
        }
    }
    round(ctx, &format!("{n} sections"), &v, &m, lead, 4)?;
    Ok(())
}

/// A file made from nothing.
fn c10_scratch(ctx: &mut Ctx) -> R {
    let mut m = Model::default();
    m.h = crate::elfmodel::Header { is64: ctx.c.chance(1, 2), be: ctx.c.chance(1, 2), ty: 1, machine: *ctx.c.pick(&[3u16, 62, 40, 183, 20, 21, 8, 243]), ..Default::default() };
    let mut tables = vec![(T::Shstr, ".shstrtab"), (T::Strtab, ".strtab"), (T::Symtab, ".symtab")];
    if ctx.c.chance(1, 3) {
        tables.push((T::Shndx, ".symtab_shndx"));
    }
    let mut lead = Vec::new();
    while !tables.is_empty() {
        let (t, n) = tables.swap_remove(ctx.c.idx(tables.len()));
        if !ctx.c.chance(1, 16) {
            lead.push(Edit::AddTable(t, n.into()));
        }
        if ctx.c.chance(1, 3) {
            lead.push(Edit::AddNoBits(name(&mut ctx.c), 8, 1));
        }
    }
    let Some(out) = round(ctx, "from nothing", &[], &m, lead, 24)? else { return Ok(()) };
    let Some(o) = Model::parse(&out).filter(again) else { return Ok(()) };
    rounds(ctx, "from nothing, then".into(), out, o)
}

fn c10_edit(ctx: &mut Ctx) -> R {
    let all = models();
    let (n, d, m) = &all[ctx.c.idx(all.len())];
    rounds(ctx, n.to_string(), d.to_vec(), m.clone())
}

/// May the builder take this again? String tables without a user, or none for the symbols, and files without sections are not supported.
fn again(o: &Model) -> bool {
    !(o.secs.is_empty() || o.secs.iter().any(|s| matches!(s.ty, 3 | 18) && matches!(s.kind, Kind::Data(_))) || o.table(T::Dynsym).is_none() != o.table(T::Dynstr).is_none() || o.table(T::Symtab).is_some() && o.table(T::Strtab).is_none())
}

fn rounds(ctx: &mut Ctx, n: String, mut data: Vec<u8>, mut model: Model) -> R {
    for k in 0..1 + ctx.c.below(3) {
        let tag = format!("{n} round {k}");
        let Some(out) = round(ctx, &tag, &data, &model, Vec::new(), 8)? else { return Ok(()) };
        let Some(o) = Model::parse(&out) else { return Ok(()) };
        if !again(&o) {
            return Ok(());
        }
        // the next round starts from what this one wrote
        (data, model) = (out, o);
    }
    Ok(())
}

pub fn subject(ctx: &mut Ctx) -> R<Box<dyn Subject>> {
    let all = models();
    let (n, d, m) = &all[ctx.c.idx(all.len())];
    let mut m = m.clone();
    let mut edits = Vec::new();
    for _ in 0..ctx.c.below(6) {
        if let Some(e) = Edit::draw(&mut ctx.c, &m) {
            e.model(&mut m);
            edits.push((e, m.clone()));
        }
    }
    Ok(Box::new(ElfSubject { name: n, data: d, edits }))
}

pub struct ElfSubject {
    name: &'static str,
    data: &'static [u8],
    edits: Vec<(Edit, Model)>,
}

impl Subject for ElfSubject {
    fn name(&self) -> String {
        format!("rewritten {}", self.name)
    }
    fn emit(&self, out: &mut dyn WritableBuffer) -> Result<(), String> {
        let mut b = be::Builder::read(self.data).map_err(|e| e.to_string())?;
        let mut ids = Ids::of(&b);
        for (e, after) in &self.edits {
            e.builder(&mut b, &mut ids, after);
        }
        b.write(out).map_err(|e| e.to_string())
    }
}

pub const REAL: &[&str] = &["src/build/elf.rs", "src/build/table.rs", "src/build/bytes.rs", "src/write/elf", "src/write/string.rs", "src/write/util.rs", "src/read/elf", "src/read/read_cache.rs"];
pub const STUB: &[&str] = &["the stored file and its stream (simulated source under the real ReadCache)", "the file written to (simulated sink)", "hash seeds (getrandom)"];

pub fn props(v: &mut Vec<crate::runner::Prop>) {
    let p = |id, rule, scenarios| crate::runner::Prop {
        id, level: "exploration", rule, scenarios, real: REAL, stub: STUB, assumptions: &[], quick_secs: 50, thorough_secs: 900,
    };
    v.push(p("C10", "distinct (file, edit history shape)", vec![("edit", 3000, c10_edit as _), ("generated", 1000, c10_generated as _), ("dynamic", 1000, c10_dynamic as _), ("scratch", 1000, c10_scratch as _), ("bulk", 3, c10_bulk as _)]));
}

/// Development: which files can be rewritten, and what the unchanged rewrite looks like.
pub fn list() {
    for (n, d) in CORPUS.iter().filter(|(n, _)| n.starts_with("elf-")) {
        let Some(m) = Model::parse(d) else {
            println!("{n}: no model");
            continue;
        };
        let b = match be::Builder::read(*d) {
            Ok(b) => b,
            Err(e) => {
                println!("{n}: read: {e}");
                continue;
            }
        };
        let mut v = Vec::new();
        if let Err(e) = b.write(&mut v) {
            println!("{n}: write: {e}");
            continue;
        }
        let mut f = m.clone();
        finalize(&mut f);
        let r = Model::parse(&v).map(|o| compare(n, &f, &o, false).map_err(|v| v.detail));
        println!("{n}: OK problems {:?} result {r:?}", m.problems);
    }
}
