//! An independent reading of ELF files (it does not use the crate under test): the reference model for
//! rewriting, lookup tables and dynamic-linking tables.
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Header {
    pub is64: bool,
    pub be: bool,
    pub os_abi: u8,
    pub abi_version: u8,
    pub ty: u16,
    pub machine: u16,
    pub entry: u64,
    pub flags: u32,
    pub phoff: u64,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Seg {
    pub ty: u32,
    pub flags: u32,
    pub offset: u64,
    pub vaddr: u64,
    pub paddr: u64,
    pub filesz: u64,
    pub memsz: u64,
    pub align: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum T {
    Symtab,
    Shndx,
    Strtab,
    Shstr,
    Dynsym,
    Dynstr,
    Hash,
    GnuHash,
    Versym,
    Verdef,
    Verneed,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rel {
    pub offset: u64,
    pub sym: Option<usize>,
    pub ty: u32,
    pub addend: i64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum DVal {
    Int(u64),
    Str(Vec<u8>),
    /// The value is determined by the tables.
    Auto,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Scope {
    File,
    Section(Vec<usize>),
    Symbol(Vec<usize>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Attr {
    pub vendor: Vec<u8>,
    pub subs: Vec<(Scope, Vec<u8>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Table(T),
    Data(Vec<u8>),
    NoBits(u64),
    /// (uses the dynamic symbol table, entries)
    Relocs(bool, Vec<Rel>),
    Dyn(Vec<(u64, DVal)>),
    Attr(Vec<Attr>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sec {
    pub name: Vec<u8>,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    pub offset: u64,
    pub size: u64,
    pub link: Option<usize>,
    pub info: u32,
    pub info_link: Option<usize>,
    pub align: u64,
    pub entsize: u64,
    pub kind: Kind,
    pub deleted: bool,
    pub added: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sym {
    pub name: Vec<u8>,
    pub info: u8,
    pub other: u8,
    pub sect: Option<usize>,
    pub shndx: u16,
    pub value: u64,
    pub size: u64,
    /// 0 local, 1 global, else 2 + index into versions
    pub ver: usize,
    pub hidden: bool,
    pub deleted: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ver {
    Def { flags: u16, names: Vec<Vec<u8>> },
    Need { flags: u16, name: Vec<u8>, file: usize },
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub h: Header,
    pub segs: Vec<Seg>,
    pub seg_deleted: Vec<bool>,
    pub secs: Vec<Sec>,
    pub syms: Vec<Sym>,
    pub dyns: Vec<Sym>,
    pub base: Option<Vec<u8>>,
    pub vers: Vec<Ver>,
    pub ver_deleted: Vec<bool>,
    pub files: Vec<Vec<u8>>,
    pub file_deleted: Vec<bool>,
    pub has_versym: bool,
    /// Where things lie in the file: (offset, size, what)
    pub shoff: u64,
    pub len: u64,
    /// nbucket of .hash; (nbucket, bloom count, bloom shift) of .gnu.hash
    pub hash_buckets: u32,
    pub gnu: (u32, u32, u32),
    /// Problems in the tables (only looked at in written files).
    pub problems: Vec<String>,
}

pub const ALLOC: u64 = 2;
pub const INFO_LINK: u64 = 0x40;
pub const TLS: u64 = 0x400;
pub const EM_ARM: u16 = 40;
pub const EM_AARCH64: u16 = 183;
pub const EM_RISCV: u16 = 243;
pub const EM_CSKY: u16 = 252;
pub const EM_MIPS: u16 = 8;

pub struct Rd<'a> {
    pub d: &'a [u8],
    pub be: bool,
    pub is64: bool,
}

impl<'a> Rd<'a> {
    pub fn bytes(&self, o: u64, n: u64) -> Option<&'a [u8]> {
        let o = usize::try_from(o).ok()?;
        let n = usize::try_from(n).ok()?;
        self.d.get(o..o.checked_add(n)?)
    }
    pub fn uint(&self, o: u64, n: usize) -> Option<u64> {
        let b = self.bytes(o, n as u64)?;
        let mut v = 0u64;
        for i in 0..n {
            let x = if self.be { b[i] } else { b[n - 1 - i] };
            v = v << 8 | u64::from(x);
        }
        Some(v)
    }
    pub fn u16(&self, o: u64) -> Option<u16> {
        self.uint(o, 2).map(|v| v as u16)
    }
    pub fn u32(&self, o: u64) -> Option<u32> {
        self.uint(o, 4).map(|v| v as u32)
    }
    pub fn u64(&self, o: u64) -> Option<u64> {
        self.uint(o, 8)
    }
    pub fn word(&self, o: u64) -> Option<u64> {
        if self.is64 { self.uint(o, 8) } else { self.uint(o, 4) }
    }
    pub fn cstr(&self, o: u64, end: u64) -> Option<&'a [u8]> {
        let b = self.bytes(o, end.checked_sub(o)?)?;
        Some(&b[..b.iter().position(|x| *x == 0)?])
    }
}

pub fn sysv_hash(n: &[u8]) -> u32 {
    let mut h = 0u32;
    for c in n {
        h = (h << 4).wrapping_add(u32::from(*c));
        let g = h & 0xf000_0000;
        h ^= g >> 24;
        h &= !g;
    }
    h
}
pub fn gnu_hash(n: &[u8]) -> u32 {
    n.iter().fold(5381u32, |h, c| h.wrapping_mul(33).wrapping_add(u32::from(*c)))
}

pub struct RawSec {
    pub name: u32,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    pub offset: u64,
    pub size: u64,
    pub link: u32,
    pub info: u32,
    pub align: u64,
    pub entsize: u64,
}

/// The 2^7 groups of a ULEB128.
pub fn uleb(d: &[u8], p: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    let mut s = 0;
    loop {
        let b = *d.get(*p)?;
        *p += 1;
        v |= u64::from(b & 0x7f).checked_shl(s)?;
        if b & 0x80 == 0 {
            return Some(v);
        }
        s += 7;
        if s > 63 {
            return None;
        }
    }
}

pub fn is_string_tag(t: u64) -> bool {
    matches!(t, 1 | 14 | 15 | 29 | 0x7fff_fffd | 0x7fff_ffff | 0x6fff_fefa | 0x6fff_fefb | 0x6fff_fefc)
}
pub fn is_auto_tag(t: u64) -> bool {
    // SYMTAB STRTAB STRSZ HASH GNU_HASH VERSYM VERDEF VERDEFNUM VERNEED VERNEEDNUM
    matches!(t, 6 | 5 | 10 | 4 | 0x6fff_fef5 | 0x6fff_fff0 | 0x6fff_fffc | 0x6fff_fffd | 0x6fff_fffe | 0x6fff_ffff)
}

impl Model {
    pub fn parse(d: &[u8]) -> Option<Model> {
        if d.get(..4)? != b"\x7fELF" {
            return None;
        }
        let r = Rd { d, is64: *d.get(4)? == 2, be: *d.get(5)? == 2 };
        let w = if r.is64 { 8 } else { 4 };
        let mut m = Model { len: d.len() as u64, ..Model::default() };
        m.h = Header {
            is64: r.is64,
            be: r.be,
            os_abi: *d.get(7)?,
            abi_version: *d.get(8)?,
            ty: r.u16(16)?,
            machine: r.u16(18)?,
            entry: r.word(24)?,
            phoff: r.word(24 + w)?,
            flags: r.u32(24 + 3 * w)?,
        };
        m.shoff = r.word(24 + 2 * w)?;
        let o = 28 + 3 * w;
        let (ehsize, phentsize, mut phnum) = (r.u16(o)?, r.u16(o + 2)?, u64::from(r.u16(o + 4)?));
        let (shentsize, mut shnum, mut shstrndx) = (r.u16(o + 6)?, u64::from(r.u16(o + 8)?), u64::from(r.u16(o + 10)?));
        let (eh, ph, sh) = if r.is64 { (64, 56, 64) } else { (52, 32, 40) };
        let raw = |i: u64| -> Option<RawSec> {
            let b = m.shoff + i * sh;
            let (f, x) = if r.is64 { (8, 8) } else { (4, 4) };
            Some(RawSec {
                name: r.u32(b)?,
                ty: r.u32(b + 4)?,
                flags: r.word(b + 8)?,
                addr: r.word(b + 8 + f)?,
                offset: r.word(b + 8 + f + x)?,
                size: r.word(b + 8 + f + 2 * x)?,
                link: r.u32(b + 8 + f + 3 * x)?,
                info: r.u32(b + 12 + f + 3 * x)?,
                align: r.word(b + 16 + f + 3 * x)?,
                entsize: r.word(b + 16 + f + 4 * x)?,
            })
        };
        if m.shoff != 0 {
            let z = raw(0)?;
            if shnum == 0 {
                shnum = z.size;
            }
            if shstrndx == 0xffff {
                shstrndx = u64::from(z.link);
            }
            if phnum == 0xffff {
                phnum = u64::from(z.info);
            }
            if z.ty != 0 || z.flags != 0 || z.addr != 0 || z.offset != 0 || z.name != 0 {
                m.problems.push("section header 0 is not null".into());
            }
        } else {
            shnum = 0;
        }
        if ehsize != eh {
            m.problems.push(format!("e_ehsize {ehsize}"));
        }
        if phnum != 0 && u64::from(phentsize) != ph {
            m.problems.push(format!("e_phentsize {phentsize}"));
        }
        if shnum != 0 && u64::from(shentsize) != sh {
            m.problems.push(format!("e_shentsize {shentsize}"));
        }
        for i in 0..phnum {
            let b = m.h.phoff + i * ph;
            m.segs.push(if r.is64 {
                Seg { ty: r.u32(b)?, flags: r.u32(b + 4)?, offset: r.u64(b + 8)?, vaddr: r.u64(b + 16)?, paddr: r.u64(b + 24)?, filesz: r.u64(b + 32)?, memsz: r.u64(b + 40)?, align: r.u64(b + 48)? }
            } else {
                let u = |k| r.u32(b + k).map(u64::from);
                Seg { ty: r.u32(b)?, offset: u(4)?, vaddr: u(8)?, paddr: u(12)?, filesz: u(16)?, memsz: u(20)?, flags: r.u32(b + 24)?, align: u(28)? }
            });
        }
        m.seg_deleted = vec![false; m.segs.len()];
        let raws: Vec<RawSec> = (0..shnum).map(raw).collect::<Option<_>>()?;
        let find = |ty: u32| raws.iter().position(|s| s.ty == ty);
        let symtab = find(2);
        let dynsym = find(11);
        let shndx = raws.iter().position(|s| s.ty == 18 && Some(s.link as usize) == symtab && symtab.is_some());
        let strtab = symtab.map(|i| raws[i].link as usize);
        let dynstr = dynsym.or(find(6)).map(|i| raws[i].link as usize);
        let data = |s: &RawSec| if s.ty == 8 { Some(&[][..]) } else { r.bytes(s.offset, s.size) };
        let string = |tab: Option<usize>, o: u64| -> Option<Vec<u8>> {
            let s = raws.get(tab?)?;
            r.cstr(s.offset.checked_add(o)?, s.offset.checked_add(s.size)?).map(|x| x.to_vec())
        };
        let mips64el = r.is64 && !r.be && m.h.machine == EM_MIPS;
        // Symbols
        for (dynamic, tab, st) in [(false, symtab, strtab), (true, dynsym, dynstr)] {
            let Some(ti) = tab else { continue };
            let s = &raws[ti];
            let es = if r.is64 { 24 } else { 16 };
            let n = s.size / es;
            let mut locals = 0;
            let mut seen_global = false;
            for i in 0..n {
                let b = s.offset + i * es;
                let (name, info, other, sh, value, size) = if r.is64 {
                    (r.u32(b)?, *d.get(b as usize + 4)?, *d.get(b as usize + 5)?, r.u16(b + 6)?, r.u64(b + 8)?, r.u64(b + 16)?)
                } else {
                    (r.u32(b)?, *d.get(b as usize + 12)?, *d.get(b as usize + 13)?, r.u16(b + 14)?, u64::from(r.u32(b + 4)?), u64::from(r.u32(b + 8)?))
                };
                if info >> 4 == 0 {
                    locals += 1;
                    if seen_global {
                        m.problems.push(format!("local symbol {i} after a global one"));
                    }
                } else {
                    seen_global = true;
                }
                if i == 0 {
                    if (name, info, other, sh, value, size) != (0, 0, 0, 0, 0, 0) {
                        m.problems.push("symbol 0 is not null".into());
                    }
                    continue;
                }
                let (sect, shndx) = match sh {
                    0xffff if !dynamic => {
                        let x = r.u32(raws.get(shndx?)?.offset + i * 4)?;
                        (Some((x as usize).checked_sub(1)?), 0)
                    }
                    0 | 0xff00..=0xffff => (None, sh),
                    _ => (Some(usize::from(sh) - 1), 0),
                };
                let name = if name == 0 { Vec::new() } else { string(st, u64::from(name))? };
                let v = Sym { name, info, other, sect, shndx, value, size, ver: 0, hidden: false, deleted: false };
                if dynamic { m.dyns.push(v) } else { m.syms.push(v) }
            }
            if u64::from(s.info) != locals {
                m.problems.push(format!("sh_info {} of a symbol table with {locals} local symbols", s.info));
            }
            if s.entsize != es {
                m.problems.push(format!("symbol table sh_entsize {}", s.entsize));
            }
        }
        // Versions
        let mut ids: BTreeMap<u16, usize> = BTreeMap::from([(0, 0), (1, 1)]);
        if let Some(s) = find(0x6fff_fffd).map(|i| &raws[i]) {
            let (mut o, mut n) = (s.offset, 0);
            loop {
                if s.size == 0 {
                    break;
                }
                let (ver, flags, ndx, cnt, hash, aux, next) = (r.u16(o)?, r.u16(o + 2)?, r.u16(o + 4)?, r.u16(o + 6)?, r.u32(o + 8)?, r.u32(o + 12)?, r.u32(o + 16)?);
                n += 1;
                let mut names = Vec::new();
                let mut a = o + u64::from(aux);
                for k in 0..cnt {
                    names.push(string(dynstr, u64::from(r.u32(a)?))?);
                    let nx = r.u32(a + 4)?;
                    if (nx == 0) != (k + 1 == cnt) {
                        m.problems.push("verdaux chain".into());
                    }
                    a += u64::from(nx);
                }
                if ver != 1 || names.first().is_some_and(|n| sysv_hash(n) != hash) {
                    m.problems.push(format!("verdef version {ver} or its hash"));
                }
                if flags & 1 != 0 {
                    if m.base.is_some() || ndx != 1 {
                        m.problems.push("base version".into());
                    }
                    m.base = names.into_iter().next();
                } else {
                    if ids.insert(ndx & 0x7fff, m.vers.len() + 2).is_some() {
                        m.problems.push(format!("duplicate version index {ndx}"));
                    }
                    m.vers.push(Ver::Def { flags, names });
                }
                if next == 0 {
                    break;
                }
                o += u64::from(next);
            }
            if u64::from(s.info) != n {
                m.problems.push(format!("verdef sh_info {} for {n}", s.info));
            }
        }
        if let Some(s) = find(0x6fff_fffe).map(|i| &raws[i]) {
            let (mut o, mut n) = (s.offset, 0);
            loop {
                if s.size == 0 {
                    break;
                }
                let (ver, cnt, file, aux, next) = (r.u16(o)?, r.u16(o + 2)?, r.u32(o + 4)?, r.u32(o + 8)?, r.u32(o + 12)?);
                n += 1;
                let f = m.files.len();
                m.files.push(string(dynstr, u64::from(file))?);
                let mut a = o + u64::from(aux);
                for k in 0..cnt {
                    let (hash, flags, other, name, nx) = (r.u32(a)?, r.u16(a + 4)?, r.u16(a + 6)?, r.u32(a + 8)?, r.u32(a + 12)?);
                    let name = string(dynstr, u64::from(name))?;
                    if sysv_hash(&name) != hash || (nx == 0) != (k + 1 == cnt) {
                        m.problems.push("vernaux hash or chain".into());
                    }
                    if ids.insert(other & 0x7fff, m.vers.len() + 2).is_some() {
                        m.problems.push(format!("duplicate version index {other}"));
                    }
                    m.vers.push(Ver::Need { flags, name, file: f });
                    a += u64::from(nx);
                }
                if ver != 1 {
                    m.problems.push("verneed version".into());
                }
                if next == 0 {
                    break;
                }
                o += u64::from(next);
            }
            if u64::from(s.info) != n {
                m.problems.push(format!("verneed sh_info {} for {n}", s.info));
            }
        }
        m.ver_deleted = vec![false; m.vers.len()];
        m.file_deleted = vec![false; m.files.len()];
        if let Some(s) = find(0x6fff_ffff).map(|i| &raws[i]) {
            m.has_versym = true;
            if s.size != 2 * (m.dyns.len() as u64 + 1) {
                m.problems.push("versym size".into());
            }
            for i in 0..m.dyns.len() {
                let v = r.u16(s.offset + 2 * (i as u64 + 1))?;
                m.dyns[i].ver = *ids.get(&(v & 0x7fff))?;
                m.dyns[i].hidden = v & 0x8000 != 0;
            }
        }
        // Sections
        for (i, s) in raws.iter().enumerate().skip(1) {
            let name = string(Some(shstrndx as usize), u64::from(s.name))?;
            let table = |t| Kind::Table(t);
            let kind = match s.ty {
                8 => Kind::NoBits(s.size),
                2 if Some(i) == symtab => table(T::Symtab),
                18 if Some(i) == shndx => table(T::Shndx),
                11 if Some(i) == dynsym => table(T::Dynsym),
                3 if Some(i) == strtab => table(T::Strtab),
                3 if Some(i) == dynstr => table(T::Dynstr),
                3 if i as u64 == shstrndx => table(T::Shstr),
                5 => {
                    m.hash_buckets = r.u32(s.offset)?;
                    table(T::Hash)
                }
                0x6fff_fff6 => {
                    m.gnu = (r.u32(s.offset)?, r.u32(s.offset + 8)?, r.u32(s.offset + 12)?);
                    table(T::GnuHash)
                }
                0x6fff_ffff => table(T::Versym),
                0x6fff_fffd => table(T::Verdef),
                0x6fff_fffe => table(T::Verneed),
                4 | 9 => {
                    let rela = s.ty == 4;
                    let es = (if rela { 3 } else { 2 }) * w;
                    let dynamic = (dynsym.is_some() && Some(s.link as usize) == dynsym) || s.link == 0 || s.flags & ALLOC != 0;
                    let mut v = Vec::new();
                    for k in 0..s.size / es {
                        let b = s.offset + k * es;
                        let info = r.word(b + w)?;
                        let (sym, ty) = if mips64el {
                            ((info & 0xffff_ffff) as u32, (info >> 32).swap_bytes_hi())
                        } else if r.is64 {
                            ((info >> 32) as u32, info as u32)
                        } else {
                            ((info >> 8) as u32, (info & 0xff) as u32)
                        };
                        let addend = if !rela {
                            0
                        } else if r.is64 {
                            r.u64(b + 16)? as i64
                        } else {
                            i64::from(r.u32(b + 8)? as i32)
                        };
                        v.push(Rel { offset: r.word(b)?, sym: (sym as usize).checked_sub(1), ty, addend });
                    }
                    Kind::Relocs(dynamic, v)
                }
                6 => {
                    let mut v = Vec::new();
                    for k in 0..s.size / (2 * w) {
                        let b = s.offset + k * 2 * w;
                        let (t, x) = (r.word(b)?, r.word(b + w)?);
                        if t == 0 {
                            break;
                        }
                        v.push((
                            t,
                            if is_string_tag(t) {
                                DVal::Str(string(Some(s.link as usize), x)?)
                            } else if is_auto_tag(t) {
                                if Model::auto(&raws, t) != Some(x) {
                                    m.problems.push(format!("dynamic tag {t:x} is {x:x}, its table says {:x?}", Model::auto(&raws, t)));
                                }
                                DVal::Auto
                            } else {
                                DVal::Int(x)
                            },
                        ));
                    }
                    Kind::Dyn(v)
                }
                t if t == 0x6fff_fff5 || (t == 0x7000_0003 && matches!(m.h.machine, EM_ARM | EM_AARCH64 | EM_RISCV)) || (t == 0x7000_0001 && m.h.machine == EM_CSKY) => {
                    Kind::Attr(attributes(&r, data(s)?)?)
                }
                _ => Kind::Data(data(s)?.to_vec()),
            };
            m.secs.push(Sec {
                name,
                ty: s.ty,
                flags: s.flags,
                addr: s.addr,
                offset: s.offset,
                size: s.size,
                link: (s.link as usize).checked_sub(1),
                info: s.info,
                info_link: if s.flags & INFO_LINK != 0 { (s.info as usize).checked_sub(1) } else { None },
                align: s.align,
                entsize: s.entsize,
                kind,
                deleted: false,
                added: false,
            });
        }
        m.check_hashes(&r, &raws);
        Some(m)
    }

    fn auto(raws: &[RawSec], tag: u64) -> Option<u64> {
        let find = |ty: u32| raws.iter().find(|s| s.ty == ty);
        Some(match tag {
            6 => find(11)?.addr,
            5 => raws.get(find(6)?.link as usize)?.addr,
            10 => raws.get(find(6)?.link as usize)?.size,
            4 => find(5)?.addr,
            0x6fff_fef5 => find(0x6fff_fff6)?.addr,
            0x6fff_fff0 => find(0x6fff_ffff)?.addr,
            0x6fff_fffc => find(0x6fff_fffd)?.addr,
            0x6fff_fffd => u64::from(find(0x6fff_fffd)?.info),
            0x6fff_fffe => find(0x6fff_fffe)?.addr,
            0x6fff_ffff => u64::from(find(0x6fff_fffe)?.info),
            _ => return None,
        })
    }

    /// Every symbol that a dynamic linker looks up is found through the hash tables, as a dynamic linker does it.
    fn check_hashes(&mut self, r: &Rd<'_>, raws: &[RawSec]) {
        let mut bad = Vec::new();
        for s in raws {
            if s.ty == 5 {
                if let Err(e) = self.sysv(r, s) {
                    bad.push(format!(".hash: {e}"));
                }
            } else if s.ty == 0x6fff_fff6 {
                if let Err(e) = self.gnuh(r, s) {
                    bad.push(format!(".gnu.hash: {e}"));
                }
            }
        }
        self.problems.extend(bad);
    }

    /// The chain of symbol indices with this hash.
    pub fn sysv_chain(r: &Rd<'_>, s: &RawSec, h: u32) -> Result<Vec<u32>, String> {
        let t = || "truncated".to_string();
        // Alpha and s390x use 8-byte entries; the crate says those are not supported.
        let nb = r.u32(s.offset).ok_or_else(t)?;
        let nc = r.u32(s.offset + 4).ok_or_else(t)?;
        if nb == 0 {
            return Ok(Vec::new());
        }
        let mut i = r.u32(s.offset + 8 + 4 * u64::from(h % nb)).ok_or_else(t)?;
        let mut v = Vec::new();
        while i != 0 {
            if i >= nc || v.len() > nc as usize {
                return Err(format!("chain index {i} of {nc}"));
            }
            v.push(i);
            i = r.u32(s.offset + 8 + 4 * (u64::from(nb) + u64::from(i))).ok_or_else(t)?;
        }
        Ok(v)
    }

    fn sysv(&self, r: &Rd<'_>, s: &RawSec) -> Result<(), String> {
        if r.u32(s.offset + 4) != Some(self.dyns.len() as u32 + 1) {
            return Err("nchain is not the number of symbols".into());
        }
        for (k, d) in self.dyns.iter().enumerate() {
            if d.name.is_empty() {
                continue;
            }
            if !Model::sysv_chain(r, s, sysv_hash(&d.name))?.contains(&(k as u32 + 1)) {
                return Err(format!("{:?} is not found", String::from_utf8_lossy(&d.name)));
            }
        }
        Ok(())
    }

    /// The symbol indices that a lookup by this hash visits with an equal hash.
    pub fn gnu_chain(r: &Rd<'_>, s: &RawSec, h: u32, n: u32) -> Result<Vec<u32>, String> {
        let t = || "truncated".to_string();
        let w = if r.is64 { 8 } else { 4 };
        let u = |o: u64| r.u32(s.offset + o).ok_or_else(t);
        let (nb, base, nbloom, shift) = (u(0)?, u(4)?, u(8)?, u(12)?);
        if nbloom == 0 || nb == 0 {
            return Ok(Vec::new());
        }
        let bits = (w * 8) as u32;
        let word = r.uint(s.offset + 16 + w * u64::from((h / bits) & (nbloom - 1)), w as usize).ok_or_else(t)?;
        if word >> (h % bits) & 1 == 0 || word >> (h.checked_shr(shift).unwrap_or(0) % bits) & 1 == 0 {
            return Ok(Vec::new());
        }
        let buckets = 16 + w * u64::from(nbloom);
        let mut i = u(buckets + 4 * u64::from(h % nb))?;
        let mut v = Vec::new();
        if i == 0 {
            return Ok(v);
        }
        loop {
            if i < base || i >= n {
                return Err(format!("index {i}"));
            }
            let x = u(buckets + 4 * u64::from(nb) + 4 * u64::from(i - base))?;
            if x | 1 == h | 1 {
                v.push(i);
            }
            if x & 1 == 1 {
                return Ok(v);
            }
            i += 1;
        }
    }

    fn gnuh(&self, r: &Rd<'_>, s: &RawSec) -> Result<(), String> {
        for (k, d) in self.dyns.iter().enumerate() {
            if d.name.is_empty() || d.info >> 4 == 0 || (d.sect.is_none() && d.shndx == 0) {
                continue;
            }
            if !Model::gnu_chain(r, s, gnu_hash(&d.name), self.dyns.len() as u32 + 1)?.contains(&(k as u32 + 1)) {
                return Err(format!("{:?} is not found", String::from_utf8_lossy(&d.name)));
            }
        }
        Ok(())
    }

    pub fn table(&self, t: T) -> Option<usize> {
        self.secs.iter().position(|s| s.kind == Kind::Table(t) && !s.deleted)
    }
    pub fn in_seg(&self, s: &Sec, g: &Seg) -> bool {
        s.flags & ALLOC != 0 && s.addr >= g.vaddr && s.addr - g.vaddr < g.memsz
    }

    pub fn ver_desc(&self, v: usize) -> String {
        match v {
            0 => "local".into(),
            1 => "global".into(),
            _ => match &self.vers[v - 2] {
                Ver::Def { flags, names } => format!("def {flags} {:?}", names.iter().map(|n| lossy(n)).collect::<Vec<_>>()),
                Ver::Need { flags, name, file } => format!("need {flags} {} of {}", lossy(name), lossy(&self.files[*file])),
            },
        }
    }

    /// Everything that the file says about a symbol, with its section as a number given by `ids`.
    pub fn sym_desc(&self, s: &Sym, ids: &dyn Fn(usize) -> usize, dynamic: bool) -> String {
        format!(
            "{} info={:x} other={:x} sect={:?} shndx={:x} value={:x} size={:x}{}",
            lossy(&s.name),
            s.info,
            s.other,
            s.sect.map(ids),
            s.shndx,
            s.value,
            s.size,
            if dynamic && self.has_versym { format!(" ver={} hidden={}", self.ver_desc(s.ver), s.hidden) } else { String::new() }
        )
    }
}

trait SwapHi {
    fn swap_bytes_hi(self) -> u32;
}
impl SwapHi for u64 {
    /// MIPS64EL keeps r_ssym, r_type3, r_type2, r_type as separate bytes in big-endian order.
    fn swap_bytes_hi(self) -> u32 {
        (self as u32).swap_bytes()
    }
}

pub fn lossy(b: &[u8]) -> String {
    b.escape_ascii().to_string()
}

pub fn attributes(r: &Rd<'_>, d: &[u8]) -> Option<Vec<Attr>> {
    let mut v = Vec::new();
    if d.is_empty() {
        return Some(v);
    }
    if d[0] != b'A' {
        return None;
    }
    let u32_at = |p: usize| Rd { d, be: r.be, is64: r.is64 }.u32(p as u64).map(|x| x as usize);
    let mut p = 1;
    while p < d.len() {
        let end = p.checked_add(u32_at(p)?)?;
        let z = d.get(p + 4..end)?.iter().position(|b| *b == 0)?;
        let mut a = Attr { vendor: d[p + 4..p + 4 + z].to_vec(), subs: Vec::new() };
        let mut q = p + 4 + z + 1;
        while q < end {
            let start = q;
            let tag = uleb(d, &mut q)?;
            let e = start.checked_add(u32_at(q)?)?;
            q += 4;
            if e > end {
                return None;
            }
            let mut list = Vec::new();
            if tag != 1 {
                loop {
                    let i = uleb(&d[..e], &mut q)?;
                    if i == 0 {
                        break;
                    }
                    list.push(i as usize - 1);
                }
            }
            let scope = match tag {
                1 => Scope::File,
                2 => Scope::Section(list),
                3 => Scope::Symbol(list),
                _ => return None,
            };
            a.subs.push((scope, d.get(q..e)?.to_vec()));
            q = e;
        }
        v.push(a);
        p = end;
    }
    Some(v)
}
