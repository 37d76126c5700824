//! Scenarios about ELF files assembled with the low-level writer, in both of its modes: C21.
use crate::choices::fnv;
use crate::ctx::{Ctx, R, violation};
use crate::elfgen::symbol_name;
use crate::elfmodel::{self as em, Model, RawSec, Rd};
use crate::ensure;
use crate::env;
use crate::sc_emit::Subject;
use crate::simio::{FailKind, SimSink, SinkCfg};
use object::elf;
use object::write::elf as we;
use object::write::elf::{SectionIndex, SymbolIndex, Writer};
use object::write::{GrowableBuffer, StreamingBuffer, StringId, WritableBuffer};
use object::Endianness;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Sy {
    name: Vec<u8>,
    /// position in `secs`
    sect: Option<usize>,
    shndx: u16,
    info: u8,
    other: u8,
    value: u64,
    size: u64,
    versym: u16,
    hashed: bool,
}

#[derive(Clone, Debug)]
struct Rel {
    offset: u64,
    sym: u32,
    ty: u32,
    addend: i64,
}

#[derive(Clone, Debug)]
struct Vd {
    flags: u16,
    index: u16,
    names: Vec<Vec<u8>>,
    /// uses the names of the next definition
    shared: bool,
}

type Attrs = Vec<(Vec<u8>, Vec<(u8, Vec<u32>, Vec<(u64, Result<u64, Vec<u8>>)>)>)>;

#[derive(Clone, Debug)]
enum K {
    Data(Vec<u8>, u64),
    NoBits(u64),
    Symtab,
    Shndx,
    Strtab,
    Shstrtab,
    Dynsym,
    Dynstr,
    Dynamic,
    Hash,
    GnuHash,
    Versym,
    Verdef,
    Verneed,
    Attr,
    /// (position of the target, with the dynamic symbols, explicit addends, entries)
    Rels(Option<usize>, bool, bool, Vec<Rel>),
    Relr(Vec<u64>),
    /// (symbol, members)
    Comdat(u32, Vec<usize>),
}

#[derive(Clone, Debug)]
struct Sec {
    name: Vec<u8>,
    ty: u32,
    flags: u64,
    addr: u64,
    align: u64,
    entsize: u64,
    link: Option<usize>,
    info: u32,
    k: K,
}

#[derive(Clone, Debug)]
enum DV {
    Int(u64),
    Str(Vec<u8>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Body {
    Sec(usize),
    Phdrs,
    Shdrs,
    /// reserve or write up to a round file offset
    Gap(u64),
}

#[derive(Clone, Debug)]
pub struct Plan {
    big: bool,
    wide: bool,
    single: bool,
    os_abi: u8,
    abi_version: u8,
    ty: u16,
    machine: u16,
    entry: u64,
    flags: u32,
    phdrs: Vec<[u64; 8]>,
    /// single phase: program headers directly after the file header
    placeholder: bool,
    secs: Vec<Sec>,
    /// the order of the section headers
    heads: Vec<usize>,
    bodies: Vec<Body>,
    /// sections without content before all others
    pad: u32,
    syms: Vec<Sy>,
    dyns: Vec<Sy>,
    num_local: u32,
    defs: Vec<Vd>,
    needs: Vec<(Vec<u8>, Vec<(u16, u16, Vec<u8>)>)>,
    dynamic: Vec<(i64, DV)>,
    hash_buckets: u32,
    gnu: (u32, u32, u32, u32),
    attrs: Attrs,
    /// unused strings in the string tables
    extra: Vec<Vec<u8>>,
    require_dynstr: bool,
    require_strtab: bool,
    require_shndx: bool,
}

fn word(ctx: &mut Ctx, wide: bool) -> u64 {
    let v = match ctx.c.below(5) {
        0 => 0,
        1 => ctx.c.below(0x10000),
        2 => u64::MAX - ctx.c.below(3),
        3 => 0x8000_0000u64 + ctx.c.below(0x1000),
        _ => ctx.c.u64(),
    };
    if wide { v } else { v & 0xffff_ffff }
}

fn a_sym(ctx: &mut Ctx, p: &Plan, nsec: usize) -> Sy {
    let name = if ctx.c.chance(1, 15) { Vec::new() } else { symbol_name(ctx) };
    let (sect, shndx) = match ctx.c.below(8) {
        0 => (None, 0),
        1 => (None, *ctx.c.pick(&[0xfff1u16, 0xfff2, 0xff00, 0xff1f])),
        2 if nsec == 0 => (None, 0),
        _ if nsec == 0 => (None, 0xfff1),
        _ => (Some(ctx.c.idx(nsec)), 0),
    };
    Sy {
        name,
        sect,
        shndx,
        info: *ctx.c.pick(&[0u8, 1, 2, 0x10, 0x11, 0x12, 0x21, 0x22, 0xaf]),
        other: ctx.c.below(256) as u8 & *ctx.c.pick(&[3u8, 0, 0xff]),
        value: word(ctx, p.wide),
        size: word(ctx, p.wide),
        versym: 0,
        hashed: true,
    }
}

fn shuffle<T>(ctx: &mut Ctx, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, ctx.c.idx(i + 1));
    }
}

/// Move elements so that every pair (before, after) is in this order.
fn order<T: PartialEq + Copy>(v: &mut Vec<T>, pairs: &[(T, T)]) {
    // few elements: repeat until nothing moves
    loop {
        let mut moved = false;
        for (a, b) in pairs {
            let (Some(i), Some(j)) = (v.iter().position(|x| x == a), v.iter().position(|x| x == b)) else { continue };
            if i > j {
                let x = v.remove(i);
                v.insert(j, x);
                moved = true;
            }
        }
        if !moved {
            return;
        }
    }
}

fn some_name(ctx: &mut Ctx) -> Vec<u8> {
    match ctx.c.below(5) {
        0 => format!("V{}", ctx.c.below(4)).into_bytes(),
        1 => format!("GLIBC_2.{}", ctx.c.below(40)).into_bytes(),
        2 => format!("lib{}.so.{}", ctx.c.below(5), ctx.c.below(3)).into_bytes(),
        _ => symbol_name(ctx),
    }
}

pub fn gen_plan(ctx: &mut Ctx, single: bool) -> Plan {
    plan(ctx, single, false)
}

/// `bulk`: more dynamic symbols than 16 bits count.
fn plan(ctx: &mut Ctx, single: bool, bulk: bool) -> Plan {
    let wide = ctx.c.chance(1, 2);
    let big = ctx.c.chance(1, 2);
    let mut p = Plan {
        big,
        wide,
        single,
        os_abi: *ctx.c.pick(&[0u8, 3, 9, 97]),
        abi_version: ctx.c.below(3) as u8,
        ty: *ctx.c.pick(&[1u16, 2, 3, 3, 4]),
        machine: *ctx.c.pick(&[62u16, 3, 183, 40, 8, 21, 243, 22, 2]),
        entry: word(ctx, wide),
        flags: ctx.c.u64() as u32,
        phdrs: Vec::new(),
        placeholder: ctx.c.chance(1, 2),
        secs: Vec::new(),
        heads: Vec::new(),
        bodies: Vec::new(),
        pad: if ctx.c.chance(1, 150) { 0xff00 - 6 + ctx.c.below(10) as u32 } else { 0 },
        syms: Vec::new(),
        dyns: Vec::new(),
        num_local: 0,
        defs: Vec::new(),
        needs: Vec::new(),
        dynamic: Vec::new(),
        hash_buckets: 1 + ctx.c.size(20) as u32,
        gnu: (1 + ctx.c.size(12) as u32, 1 << ctx.c.below(4), ctx.c.below(32) as u32, 0),
        attrs: Vec::new(),
        extra: Vec::new(),
        require_dynstr: false,
        require_strtab: false,
        require_shndx: false,
    };
    // content sections come first in `secs`
    let n = ctx.c.size(6) as usize;
    for i in 0..n {
        let nobits = ctx.c.chance(1, 5);
        let len = if nobits { ctx.c.size(0x10000) } else { ctx.c.size(200) };
        let k = if nobits { K::NoBits(len) } else { K::Data(ctx.c.bytes(len as usize), 0) };
        let align = *ctx.c.pick(&[0u64, 1, 2, 4, 8, 16, 32, 4096]);
        let name = match ctx.c.below(5) {
            0 => Vec::new(),
            1 => b".text".to_vec(),
            2 => b".rela.text".to_vec(),
            _ => format!(".d{i}").into_bytes(),
        };
        p.secs.push(Sec {
            name,
            ty: if nobits { 8 } else { *ctx.c.pick(&[1u32, 1, 14, 7, 0x7000_0001, 0x6000_0000]) },
            flags: if wide { ctx.c.u64() & *ctx.c.pick(&[2u64, 6, 0x437, u64::MAX]) } else { ctx.c.below(0x800) },
            // an address space of which the last byte is not used
            addr: word(ctx, wide) & (u64::MAX >> 2),
            align,
            entsize: ctx.c.below(3) * 8,
            link: if ctx.c.chance(1, 6) { Some(ctx.c.idx(n)) } else { None },
            info: if ctx.c.chance(1, 6) { ctx.c.u64() as u32 } else { 0 },
            k,
        });
    }
    let blank = |name: &[u8], k: K| Sec { name: name.to_vec(), ty: 0, flags: 0, addr: 0, align: 0, entsize: 0, link: None, info: 0, k };
    let has_sections = n > 0 || ctx.c.chance(9, 10);
    if !has_sections {
        p.pad = 0;
    }
    for _ in 0..ctx.c.size(4) {
        let t = *ctx.c.pick(&[1u64, 1, 2, 3, 4, 6, 7, 0x6474_e551]);
        let f = ctx.c.below(8);
        p.phdrs.push([t, f, word(ctx, wide), word(ctx, wide), word(ctx, wide), word(ctx, wide), word(ctx, wide), 1 << ctx.c.below(13)]);
    }
    if ctx.c.chance(1, 300) && has_sections {
        let e = p.phdrs.last().copied().unwrap_or([1, 4, 0, 0, 0, 0, 0, 1]);
        p.phdrs.resize(0xffff - 1 + ctx.c.idx(3), e);
        p.placeholder = true;
    }
    if has_sections {
        let content = p.secs.len();
        p.secs.push(blank(b".shstrtab", K::Shstrtab));
        let with_sym = ctx.c.chance(3, 4);
        if with_sym {
            p.secs.push(blank(b".symtab", K::Symtab));
            for _ in 0..ctx.c.size(30) {
                let s = a_sym(ctx, &p, content);
                p.syms.push(s);
            }
            p.num_local = ctx.c.below(p.syms.len() as u64 + 2) as u32;
            if !single && (p.pad > 0 || ctx.c.chance(1, 12)) {
                p.require_shndx = true;
                p.secs.push(blank(b".symtab_shndx", K::Shndx));
            }
        }
        if with_sym || ctx.c.chance(1, 4) {
            p.require_strtab = !with_sym;
            for _ in 0..ctx.c.size(4) {
                let e = some_name(ctx);
                p.extra.push(e);
            }
            if single && !with_sym && p.extra.is_empty() {
                p.extra.push(b"extra".to_vec());
            }
            p.secs.push(blank(b".strtab", K::Strtab));
        }
        let with_dyn = ctx.c.chance(3, 4);
        let with_dynamic = ctx.c.chance(3, 4);
        if with_dyn {
            p.secs.push(blank(b".dynsym", K::Dynsym));
            let n = if ctx.c.chance(1, 25) { 300 } else { ctx.c.size(40) };
            for _ in 0..n {
                let s = a_sym(ctx, &p, content);
                p.dyns.push(s);
            }
            if bulk {
                let first = p.dyns.len();
                for i in first..0x10000 - 6 + ctx.c.idx(5000) {
                    let mut s = p.dyns.get(i % first.max(1)).cloned().unwrap_or_else(|| a_sym(ctx, &p, 0));
                    s.name = format!("s{i}").into_bytes();
                    p.dyns.push(s);
                }
                p.hash_buckets = 500 + ctx.c.below(2000) as u32;
                p.gnu = (500 + ctx.c.below(2000) as u32, 1 << ctx.c.below(14), ctx.c.below(32) as u32, 0);
            }
            if ctx.c.chance(3, 4) {
                p.secs.push(blank(b".hash", K::Hash));
                let full = ctx.c.chance(1, 2);
                for s in &mut p.dyns {
                    s.hashed = full || ctx.c.chance(3, 4);
                }
            }
            if ctx.c.chance(3, 4) {
                p.secs.push(blank(b".gnu.hash", K::GnuHash));
                // the symbols in the table are the last ones, sorted by bucket
                let from = ctx.c.idx(p.dyns.len() + 1);
                let nb = p.gnu.0;
                p.dyns[from..].sort_by_key(|s| em::gnu_hash(&s.name) % nb);
                p.gnu.3 = from as u32;
            }
            let mut ids: Vec<u16> = vec![0, 1];
            let dense = ctx.c.chance(3, 4);
            let next = |ctx: &mut Ctx, ids: &mut Vec<u16>| {
                let i = if dense { ids.len() as u16 } else { 2 + ctx.c.below(0x7ffd) as u16 };
                if ids.contains(&i) {
                    return None;
                }
                ids.push(i);
                Some(i)
            };
            if ctx.c.chance(1, 2) {
                p.secs.push(blank(b".gnu.version_d", K::Verdef));
                for k in 0..(1 + ctx.c.size(5)) {
                    let index = if k == 0 && ctx.c.chance(3, 4) { 1 } else { let Some(i) = next(ctx, &mut ids) else { continue }; i };
                    let names = (0..1 + ctx.c.size(4)).map(|_| some_name(ctx)).collect();
                    // the flag of the base definition is for index 1
                    let flags = ctx.c.below(4) as u16 & if index == 1 { 3 } else { 2 };
                    p.defs.push(Vd { flags, index, names, shared: false });
                }
                if p.defs.is_empty() {
                    p.defs.push(Vd { flags: 1, index: 1, names: vec![b"base".to_vec()], shared: false });
                }
                for i in 0..p.defs.len() - 1 {
                    if ctx.c.chance(1, 4) {
                        p.defs[i].shared = true;
                    }
                }
                for i in (0..p.defs.len() - 1).rev() {
                    if p.defs[i].shared && !p.defs[i + 1].shared {
                        // some of the names of the next one
                        let n = 1 + ctx.c.idx(p.defs[i + 1].names.len());
                        p.defs[i].names = p.defs[i + 1].names[..n].to_vec();
                    } else {
                        p.defs[i].shared = false;
                    }
                }
            }
            if ctx.c.chance(1, 2) {
                p.secs.push(blank(b".gnu.version_r", K::Verneed));
                for _ in 0..(1 + ctx.c.size(3)) {
                    let mut aux = Vec::new();
                    for _ in 0..ctx.c.size(4) {
                        if let Some(i) = next(ctx, &mut ids) {
                            aux.push((ctx.c.below(4) as u16, i, some_name(ctx)));
                        }
                    }
                    let f = some_name(ctx);
                    p.needs.push((f, aux));
                }
            }
            if ctx.c.chance(1, 2) || !p.defs.is_empty() || !p.needs.is_empty() {
                p.secs.push(blank(b".gnu.version", K::Versym));
                for s in &mut p.dyns {
                    s.versym = *ctx.c.pick(&ids) | if ctx.c.chance(1, 4) { 0x8000 } else { 0 };
                }
            }
        }
        if with_dynamic {
            p.secs.push(blank(b".dynamic", K::Dynamic));
            for _ in 0..ctx.c.size(10) {
                let t = *ctx.c.pick(&[1i64, 14, 15, 29, 3, 21, 30, 0x6fff_fffb, 0x7fff_fffd, 0x6fff_fef5, 5]);
                let v = if em::is_string_tag(t as u64) || ctx.c.chance(1, 10) { DV::Str(some_name(ctx)) } else { DV::Int(word(ctx, wide)) };
                p.dynamic.push((t, v));
            }
            if ctx.c.chance(1, 40) {
                // may not be expressible
                p.dynamic.push(match ctx.c.below(3) {
                    0 => (ctx.c.u64() as i64, DV::Int(1)),
                    1 => (3, DV::Int(0x1_0000_0000 + ctx.c.below(4))),
                    _ => (-1 - ctx.c.below(3) as i64, DV::Int(0xffff_ffff)),
                });
            }
            p.dynamic.push((0, DV::Int(0)));
        }
        let strings = p.dynamic.iter().any(|d| matches!(d.1, DV::Str(_)));
        if with_dyn || strings || (!single && ctx.c.chance(1, 6)) {
            p.require_dynstr = !with_dyn && !strings;
            p.secs.push(blank(b".dynstr", K::Dynstr));
        }
        let tables = p.secs.len();
        for i in 0..ctx.c.size(3) {
            let dynamic = with_dyn && (!with_sym || ctx.c.chance(1, 2));
            let count = if dynamic { p.dyns.len() } else { p.syms.len() };
            // MIPS64 little endian has its own layout, which is only defined with addends
            let rela = ctx.c.chance(1, 2) || (wide && !big && p.machine == 8);
            let target = if content > 0 && ctx.c.chance(4, 5) { Some(ctx.c.idx(content)) } else { None };
            let mut v = Vec::new();
            for _ in 0..ctx.c.size(8) {
                v.push(Rel {
                    offset: word(ctx, wide),
                    sym: ctx.c.below(count as u64 + 1) as u32,
                    ty: if wide { ctx.c.u64() as u32 & *ctx.c.pick(&[0xff, u32::MAX]) } else { ctx.c.below(256) as u32 },
                    addend: if !rela { 0 } else if wide { ctx.c.u64() as i64 } else { ctx.c.u64() as i32 as i64 },
                });
            }
            p.secs.push(blank(&format!(".rel{i}").into_bytes(), K::Rels(target, dynamic, rela, v)));
        }
        if ctx.c.chance(1, 6) {
            let v = (0..ctx.c.size(6)).map(|_| word(ctx, wide)).collect();
            p.secs.push(blank(b".relr.dyn", K::Relr(v)));
        }
        if with_sym && content > 0 && ctx.c.chance(1, 3) {
            let m = (0..ctx.c.size(4)).map(|_| ctx.c.idx(content)).collect();
            let s = ctx.c.below(p.syms.len() as u64 + 1) as u32;
            p.secs.push(blank(b".group", K::Comdat(s, m)));
        }
        if ctx.c.chance(1, 4) {
            p.secs.push(blank(b".gnu.attributes", K::Attr));
            for _ in 0..ctx.c.size(3) {
                let mut subs = Vec::new();
                for _ in 0..ctx.c.size(3) {
                    let tag = 1 + ctx.c.below(3) as u8;
                    let list = if tag == 1 { Vec::new() } else { (0..ctx.c.size(3)).map(|_| 1 + ctx.c.below(300) as u32).collect() };
                    let mut v = Vec::new();
                    for _ in 0..ctx.c.size(4) {
                        let t = ctx.c.size(1 << 20);
                        let x = if ctx.c.chance(1, 2) { Ok(word(ctx, true)) } else { Err(some_name(ctx)) };
                        v.push((t, x));
                    }
                    subs.push((tag, list, v));
                }
                let n = some_name(ctx);
                p.attrs.push((n, subs));
            }
        }
        let _ = tables;
    }
    // the order of headers and bodies
    let sec = |p: &Plan, n: &[u8]| p.secs.iter().rposition(|s| s.name == n).unwrap_or(usize::MAX);
    p.heads = (0..p.secs.len()).collect();
    shuffle(ctx, &mut p.heads);
    let s = |n: &str| sec(&p, n.as_bytes());
    let mut pairs = Vec::new();
    if single {
        pairs = vec![
            (s(".strtab"), s(".symtab")),
            (s(".symtab"), s(".symtab_shndx")),
            (s(".dynstr"), s(".dynsym")),
            (s(".dynstr"), s(".dynamic")),
            (s(".dynstr"), s(".gnu.version_d")),
            (s(".dynstr"), s(".gnu.version_r")),
            (s(".dynstr"), s(".gnu.attributes")),
            (s(".dynsym"), s(".hash")),
            (s(".dynsym"), s(".gnu.hash")),
            (s(".dynsym"), s(".gnu.version")),
        ];
    }
    order(&mut p.heads, &pairs);
    let mut b: Vec<Body> = (0..p.secs.len()).map(Body::Sec).collect();
    for _ in 0..ctx.c.size(2) {
        b.push(Body::Gap(1 << ctx.c.below(9)));
    }
    if !(single && p.placeholder) {
        b.push(Body::Phdrs);
    }
    if has_sections && !single {
        b.push(Body::Shdrs);
    }
    shuffle(ctx, &mut b);
    let x = |n: &str| Body::Sec(sec(&p, n.as_bytes()));
    let mut pairs = vec![(x(".symtab"), x(".symtab_shndx"))];
    if single {
        pairs.extend([(x(".symtab"), x(".strtab")), (x(".dynsym"), x(".dynstr"))]);
        let last = x(".shstrtab");
        b.retain(|q| *q != last);
        if has_sections {
            b.push(last);
            b.push(Body::Shdrs);
        }
    }
    order(&mut b, &pairs);
    p.bodies = b;
    p
}

/// What the writer said about where things went.
#[derive(Default, Debug)]
pub struct Said {
    offs: BTreeMap<usize, u64>,
    problems: Vec<String>,
    pub header: Vec<u8>,
}

impl Plan {
    fn endian(&self) -> Endianness {
        if self.big { Endianness::Big } else { Endianness::Little }
    }
    fn file_header(&self) -> we::FileHeader {
        we::FileHeader {
            os_abi: elf::OsAbi(self.os_abi),
            abi_version: self.abi_version,
            e_type: elf::FileType(self.ty),
            e_machine: elf::Machine(self.machine),
            e_entry: self.entry,
            e_flags: elf::FileFlags(self.flags),
        }
    }
    fn phdr(&self, h: &[u64; 8]) -> we::ProgramHeader {
        we::ProgramHeader {
            p_type: elf::ProgramType(h[0] as u32),
            p_flags: elf::ProgramFlags(h[1] as u32),
            p_offset: h[2],
            p_vaddr: h[3],
            p_paddr: h[4],
            p_filesz: h[5],
            p_memsz: h[6],
            p_align: h[7],
        }
    }
    /// The section table index.
    fn index(&self, sec: usize) -> u32 {
        1 + self.pad + self.heads.iter().position(|h| *h == sec).unwrap() as u32
    }
    fn of(&self, f: impl Fn(&K) -> bool) -> u32 {
        self.secs.iter().position(|s| f(&s.k)).map(|i| self.index(i)).unwrap_or(0)
    }
    fn symtab(&self) -> u32 {
        self.of(|k| matches!(k, K::Symtab))
    }
    fn dynsym(&self) -> u32 {
        self.of(|k| matches!(k, K::Dynsym))
    }
    fn dynstr(&self) -> u32 {
        self.of(|k| matches!(k, K::Dynstr))
    }
    fn aux(&self) -> usize {
        self.defs.iter().filter(|d| !d.shared).map(|d| d.names.len()).sum()
    }
    fn naux(&self) -> usize {
        self.needs.iter().map(|n| n.1.len()).sum()
    }
    fn in_gnu(&self) -> u32 {
        self.dyns.len() as u32 - self.gnu.3
    }
    /// Is there something that the file format or the mode cannot express?
    pub fn refused(&self) -> Option<&'static str> {
        let total = if self.secs.is_empty() { 0 } else { 1 + self.pad as usize + self.secs.len() };
        if self.single && total >= 0xff00 {
            return Some("too many sections for one phase");
        }
        if self.phdrs.len() >= 0xffff && total == 0 {
            return Some("too many program headers without sections");
        }
        if !self.wide && self.dynamic.iter().any(|(t, v)| i32::try_from(*t).is_err() || matches!(v, DV::Int(v) if *v > 0xffff_ffff)) {
            return Some("a dynamic entry of more than 32 bits");
        }
        None
    }

    fn attr_bytes<M: we::Mode>(&self, w: &Writer<'_, M>) -> Vec<u8> {
        let mut a = w.attributes_writer();
        for (vendor, subs) in &self.attrs {
            a.start_subsection(vendor);
            for (tag, list, attrs) in subs {
                a.start_subsubsection(elf::AttributeTag(*tag));
                if *tag != 1 {
                    for i in list {
                        a.write_subsubsection_index(*i);
                    }
                    a.write_subsubsection_index(0);
                }
                for (t, v) in attrs {
                    a.write_attribute_tag(*t);
                    match v {
                        Ok(n) => a.write_attribute_integer(*n),
                        Err(s) => a.write_attribute_string(s),
                    }
                }
                a.end_subsubsection();
            }
            a.end_subsection();
        }
        a.data()
    }

    fn sym(&self, s: &Sy, name: u32) -> we::Sym {
        we::Sym {
            section: s.sect.map(|x| self.index(x)),
            st_name: name,
            st_info: elf::SymbolInfo(s.info),
            st_other: elf::SymbolOther(s.other),
            st_shndx: elf::SymbolSection(s.shndx),
            st_value: s.value,
            st_size: s.size,
        }
    }
}

/// The strings of a plan in the tables of a writer.
struct Ids {
    secs: Vec<StringId>,
    syms: Vec<Option<StringId>>,
    dyns: Vec<Option<StringId>>,
    defs: Vec<Vec<StringId>>,
    needs: Vec<(StringId, Vec<StringId>)>,
    dynamic: Vec<Option<StringId>>,
    pad: Option<StringId>,
}

fn strings<'a, M: we::Mode>(p: &'a Plan, w: &mut Writer<'a, M>) -> Ids {
    let mut i = Ids { secs: Vec::new(), syms: Vec::new(), dyns: Vec::new(), defs: Vec::new(), needs: Vec::new(), dynamic: Vec::new(), pad: None };
    if !p.secs.is_empty() {
        i.secs = p
            .secs
            .iter()
            .map(|s| match s.k {
                K::Data(..) | K::NoBits(_) | K::Rels(..) | K::Relr(_) | K::Comdat(..) => w.add_section_name(&s.name),
                _ => w.add_section_name(b".shstrtab"),
            })
            .collect();
        if p.pad > 0 {
            i.pad = Some(w.add_section_name(b".pad"));
        }
    }
    let opt = |n: &'a Vec<u8>, f: &mut dyn FnMut(&'a [u8]) -> StringId| if n.is_empty() { None } else { Some(f(n)) };
    for s in &p.syms {
        i.syms.push(opt(&s.name, &mut |n| w.add_string(n)));
    }
    for s in &p.extra {
        w.add_string(s);
    }
    for s in &p.dyns {
        i.dyns.push(opt(&s.name, &mut |n| w.add_dynamic_string(n)));
    }
    for d in &p.defs {
        i.defs.push(d.names.iter().map(|n| w.add_dynamic_string(n)).collect());
    }
    for (f, aux) in &p.needs {
        let f = w.add_dynamic_string(f);
        i.needs.push((f, aux.iter().map(|a| w.add_dynamic_string(&a.2)).collect()));
    }
    for (_, v) in &p.dynamic {
        i.dynamic.push(match v {
            DV::Str(s) => Some(w.add_dynamic_string(s)),
            DV::Int(_) => None,
        });
    }
    i
}

/// Write the content of one section; the steps are the same in both modes.
fn body<'a, M: we::Mode>(p: &'a Plan, w: &mut Writer<'a, M>, ids: &Ids, said: &mut Said, sec: usize, hooks: &mut dyn FnMut(&mut Writer<'a, M>, &K, Option<u64>) -> Result<u64, String>) -> Result<(), String> {
    let s = &p.secs[sec];
    let off = match &s.k {
        K::NoBits(_) => w.offset(),
        K::Data(d, _) => {
            let o = w.write_align(s.align);
            w.write(d);
            o
        }
        K::Symtab => {
            let o = w.write_null_symbol();
            for (k, y) in p.syms.iter().enumerate() {
                let n = w.string_offset(ids.syms[k]);
                let i = w.write_symbol(&p.sym(y, n));
                if i.0 != k as u32 + 1 {
                    said.problems.push(format!("symbol {} was given index {}", k + 1, i.0));
                }
            }
            o
        }
        K::Shndx => w.write_symtab_shndx(),
        K::Dynsym => {
            let o = w.write_null_dynamic_symbol();
            for (k, y) in p.dyns.iter().enumerate() {
                let n = w.dynamic_string_offset(ids.dyns[k]);
                let mut y = p.sym(y, n);
                if y.section.is_some_and(|x| x >= 0xff00) {
                    // documented: no extended indices for dynamic symbols
                    y.section = None;
                    y.st_shndx = elf::SymbolSection(0xffff);
                }
                let i = w.write_dynamic_symbol(&y);
                if i.0 != k as u32 + 1 {
                    said.problems.push(format!("dynamic symbol {} was given index {}", k + 1, i.0));
                }
            }
            o
        }
        K::Strtab | K::Shstrtab | K::Dynstr | K::Verdef | K::Verneed => hooks(w, &s.k, None)?,
        K::Dynamic => {
            let o = w.write_align_dynamic();
            for (k, (t, v)) in p.dynamic.iter().enumerate() {
                match (v, ids.dynamic[k]) {
                    (DV::Str(_), Some(id)) => w.write_dynamic_string(elf::DynamicTag(*t), id).map_err(|e| e.to_string())?,
                    (DV::Int(n), _) => w.write_dynamic(elf::DynamicTag(*t), *n).map_err(|e| e.to_string())?,
                    _ => unreachable!(),
                }
            }
            o
        }
        K::Hash => w.write_hash(p.hash_buckets, p.dyns.len() as u32 + 1, |i| {
            let s = p.dyns.get((i as usize).wrapping_sub(1))?;
            s.hashed.then(|| em::sysv_hash(&s.name))
        }),
        K::GnuHash => w.write_gnu_hash(p.gnu.3 + 1, p.gnu.2, p.gnu.1, p.gnu.0, p.in_gnu(), |i| em::gnu_hash(&p.dyns[(p.gnu.3 + i) as usize].name)),
        K::Versym => {
            let o = w.write_null_gnu_versym();
            for y in &p.dyns {
                w.write_gnu_versym(elf::VersymIndex(y.versym));
            }
            o
        }
        K::Attr => {
            let d = p.attr_bytes(w);
            w.write_gnu_attributes(&d)
        }
        K::Rels(_, _, rela, v) => {
            let o = w.write_align_relocation();
            for r in v {
                w.write_relocation(*rela, &we::Rel { r_offset: r.offset, r_sym: r.sym, r_type: elf::RelocationType(r.ty), r_addend: r.addend });
            }
            o
        }
        K::Relr(v) => {
            let o = w.write_align_relocation();
            w.write(&words(p, v));
            o
        }
        K::Comdat(_, m) => {
            w.write_comdat_header();
            let o = w.offset() - 4;
            for x in m {
                w.write_comdat_entry(SectionIndex(p.index(*x)));
            }
            o
        }
    };
    if let Some(r) = said.offs.insert(sec, off) {
        if r != off && !matches!(s.k, K::NoBits(_)) {
            said.problems.push(format!("section {} was reserved at {r:#x} and written at {off:#x}", em::lossy(&s.name)));
        }
    }
    Ok(())
}

fn verdefs<'a, M: we::Mode>(p: &'a Plan, w: &mut Writer<'a, M>, ids: &Ids) {
    for (d, n) in p.defs.iter().zip(&ids.defs) {
        let v = we::Verdef {
            version: 1,
            flags: elf::VersionFlags(d.flags),
            index: elf::VersionIndex(d.index),
            aux_count: d.names.len() as u16,
            name: w.dynamic_string_offset(Some(n[0])),
            hash: em::sysv_hash(&d.names[0]),
        };
        if d.shared {
            w.write_gnu_verdef_shared(&v);
        } else {
            w.write_gnu_verdef(&v);
            for n in &n[1..] {
                w.write_gnu_verdaux(*n);
            }
        }
    }
}

fn verneeds<'a, M: we::Mode>(p: &'a Plan, w: &mut Writer<'a, M>, ids: &Ids) {
    for ((_, aux), (fi, ai)) in p.needs.iter().zip(&ids.needs) {
        let file = w.dynamic_string_offset(Some(*fi));
        w.write_gnu_verneed(&we::Verneed { version: 1, aux_count: aux.len() as u16, file });
        for ((flags, index, name), n) in aux.iter().zip(ai) {
            let off = w.dynamic_string_offset(Some(*n));
            w.write_gnu_vernaux(&we::Vernaux { flags: elf::VersionFlags(*flags), index: elf::VersionIndex(*index), name: off, hash: em::sysv_hash(name) });
        }
    }
}

fn words(p: &Plan, v: &[u64]) -> Vec<u8> {
    let mut d = Vec::new();
    for x in v {
        let b = x.to_be_bytes();
        let b = if p.wide { &b[..] } else { &b[4..] };
        if p.big { d.extend_from_slice(b) } else { d.extend(b.iter().rev()) }
    }
    d
}

fn heads<'a, M: we::Mode>(p: &'a Plan, w: &mut Writer<'a, M>, ids: &Ids, said: &mut Said) {
    w.write_null_section_header();
    for _ in 0..p.pad {
        let sh_name = w.section_name_offset(ids.pad);
        w.write_section_header(&we::SectionHeader { sh_name, sh_type: elf::SectionType(1), sh_addralign: 1, ..Default::default() });
    }
    for h in &p.heads {
        let s = &p.secs[*h];
        let off = said.offs.get(h).copied().unwrap_or(0);
        match &s.k {
            K::Data(..) | K::NoBits(_) => {
                let sh_name = w.section_name_offset(Some(ids.secs[*h]));
                let i = w.write_section_header(&we::SectionHeader {
                    sh_name,
                    sh_type: elf::SectionType(s.ty),
                    sh_flags: elf::SectionFlags(s.flags),
                    sh_addr: s.addr,
                    sh_offset: off,
                    sh_size: match &s.k {
                        K::Data(d, _) => d.len() as u64,
                        K::NoBits(n) => *n,
                        _ => 0,
                    },
                    sh_link: s.link.map_or(0, |l| p.index(l)),
                    sh_info: s.info,
                    sh_addralign: s.align,
                    sh_entsize: s.entsize,
                });
                if i.0 != p.index(*h) {
                    said.problems.push(format!("section {} was given index {}", p.index(*h), i.0));
                }
            }
            K::Symtab => w.write_symtab_section_header(p.num_local),
            K::Shndx => w.write_symtab_shndx_section_header(),
            K::Strtab => w.write_strtab_section_header(),
            K::Shstrtab => w.write_shstrtab_section_header(),
            K::Dynsym => w.write_dynsym_section_header(0x1000, p.num_local),
            K::Dynstr => w.write_dynstr_section_header(0x1001),
            K::Dynamic => w.write_dynamic_section_header(0x1002),
            K::Hash => w.write_hash_section_header(0x1003),
            K::GnuHash => w.write_gnu_hash_section_header(0x1004),
            K::Versym => w.write_gnu_versym_section_header(0x1005),
            K::Verdef => w.write_gnu_verdef_section_header(0x1006),
            K::Verneed => w.write_gnu_verneed_section_header(0x1007),
            K::Attr => w.write_gnu_attributes_section_header(),
            K::Rels(t, d, rela, v) => {
                let st = if *d { p.dynsym() } else { p.symtab() };
                w.write_relocation_section_header(ids.secs[*h], SectionIndex(t.map_or(0, |t| p.index(t))), SectionIndex(st), off, v.len(), *rela)
            }
            K::Relr(v) => w.write_relative_relocation_section_header(ids.secs[*h], off, v.len() as u64 * if p.wide { 8 } else { 4 }),
            K::Comdat(y, m) => w.write_comdat_section_header(ids.secs[*h], SectionIndex(p.symtab()), SymbolIndex(*y), off, m.len()),
        }
    }
}

fn two_phase(p: &Plan, out: &mut dyn WritableBuffer) -> Result<Said, String> {
    let mut said = Said::default();
    let mut w = Writer::new(p.endian(), p.wide, out);
    let e = |e: object::write::Error| e.to_string();
    // indices
    for _ in 0..p.pad {
        w.reserve_section_index();
    }
    for h in &p.heads {
        let i = match &p.secs[*h].k {
            K::Symtab => w.reserve_symtab_section_index(),
            K::Shndx => w.reserve_symtab_shndx_section_index(),
            K::Strtab => w.reserve_strtab_section_index(),
            K::Shstrtab => w.reserve_shstrtab_section_index(),
            K::Dynsym => w.reserve_dynsym_section_index(),
            K::Dynstr => w.reserve_dynstr_section_index(),
            K::Dynamic => w.reserve_dynamic_section_index(),
            K::Hash => w.reserve_hash_section_index(),
            K::GnuHash => w.reserve_gnu_hash_section_index(),
            K::Versym => w.reserve_gnu_versym_section_index(),
            K::Verdef => w.reserve_gnu_verdef_section_index(),
            K::Verneed => w.reserve_gnu_verneed_section_index(),
            K::Attr => w.reserve_gnu_attributes_section_index(),
            _ => w.reserve_section_index(),
        };
        if i.0 != p.index(*h) {
            said.problems.push(format!("index {} was reserved for section {}", i.0, p.index(*h)));
        }
    }
    let ids = strings(p, &mut w);
    if p.secs.iter().any(|s| matches!(s.k, K::Symtab)) {
        w.reserve_null_symbol_index();
        for s in &p.syms {
            w.reserve_symbol_index(s.sect.map(|x| SectionIndex(p.index(x))));
        }
    }
    if p.require_shndx {
        w.require_symtab_shndx();
    }
    if p.secs.iter().any(|s| matches!(s.k, K::Dynsym)) {
        w.reserve_null_dynamic_symbol_index();
        for _ in &p.dyns {
            w.reserve_dynamic_symbol_index();
        }
    }
    if p.require_strtab {
        w.require_strtab();
    }
    if p.require_dynstr {
        w.require_dynstr();
    }
    let attrs = p.attr_bytes(&w);
    // file ranges
    w.reserve_file_header();
    for b in &p.bodies {
        match b {
            Body::Phdrs => w.reserve_program_headers(p.phdrs.len() as u32),
            Body::Shdrs => w.reserve_section_headers(),
            Body::Gap(n) => {
                let at = (w.reserved_len() / n + 1) * n;
                w.reserve_until(at)
            }
            Body::Sec(i) => {
                let s = &p.secs[*i];
                let o = match &s.k {
                    K::NoBits(_) => w.reserved_len(),
                    K::Data(d, _) => w.reserve(d.len() as u64, s.align),
                    K::Symtab => {
                        w.reserve_symtab();
                        continue;
                    }
                    K::Shndx => {
                        w.reserve_symtab_shndx();
                        continue;
                    }
                    K::Strtab => {
                        w.reserve_strtab().map_err(e)?;
                        continue;
                    }
                    K::Shstrtab => {
                        w.reserve_shstrtab().map_err(e)?;
                        continue;
                    }
                    K::Dynsym => w.reserve_dynsym(),
                    K::Dynstr => w.reserve_dynstr().map_err(e)?,
                    K::Dynamic => w.reserve_dynamic(p.dynamic.len()),
                    K::Hash => w.reserve_hash(p.hash_buckets, p.dyns.len() as u32 + 1),
                    K::GnuHash => w.reserve_gnu_hash(p.gnu.1, p.gnu.0, p.in_gnu()),
                    K::Versym => w.reserve_gnu_versym(),
                    K::Verdef => w.reserve_gnu_verdef(p.defs.len() as u16, p.aux()),
                    K::Verneed => w.reserve_gnu_verneed(p.needs.len() as u16, p.naux()),
                    K::Attr => w.reserve_gnu_attributes(attrs.len() as u64),
                    K::Rels(_, _, rela, v) => w.reserve_relocations(v.len(), *rela),
                    K::Relr(v) => w.reserve(words(p, v).len() as u64, if p.wide { 8 } else { 4 }),
                    K::Comdat(_, m) => w.reserve_comdat(m.len()),
                };
                said.offs.insert(*i, o);
            }
        }
    }
    let total = w.reserved_len();
    w.write_file_header(&p.file_header()).map_err(e)?;
    for b in &p.bodies {
        match b {
            Body::Phdrs => {
                w.write_align_program_headers();
                for h in &p.phdrs {
                    w.write_program_header(&p.phdr(h));
                }
            }
            Body::Shdrs => heads(p, &mut w, &ids, &mut said),
            Body::Gap(n) => {
                let at = (w.offset() / n + 1) * n;
                w.pad_until(at)
            }
            Body::Sec(i) => {
                let ids = &ids;
                body(p, &mut w, ids, &mut said, *i, &mut |w, k, _| {
                    Ok(match k {
                        K::Strtab => {
                            w.write_strtab();
                            0
                        }
                        K::Shstrtab => {
                            w.write_shstrtab();
                            0
                        }
                        K::Dynstr => {
                            let o = w.offset();
                            w.write_dynstr();
                            o
                        }
                        K::Verdef => {
                            w.write_align_gnu_verdef();
                            let o = w.offset();
                            verdefs(p, w, ids);
                            o
                        }
                        _ => {
                            w.write_align_gnu_verneed();
                            let o = w.offset();
                            verneeds(p, w, ids);
                            o
                        }
                    })
                })?
            }
        }
    }
    if w.len() != total {
        said.problems.push(format!("{total} bytes were reserved, {} written", w.len()));
    }
    Ok(said)
}

fn single_phase(p: &Plan, out: &mut dyn GrowableBuffer) -> Result<Said, String> {
    let mut said = Said::default();
    let mut w = Writer::new_single_phase(p.endian(), p.wide, out);
    let e = |e: object::write::Error| e.to_string();
    let ids = strings(p, &mut w);
    w.write_file_header(&p.file_header()).map_err(e)?;
    if p.placeholder {
        let (o, n) = w.write_program_headers_placeholder(p.phdrs.len() as u32);
        let size = if p.wide { 56 } else { 32 };
        let want = if p.phdrs.is_empty() { (0, 0) } else { (if p.wide { 64 } else { 52 }, size * p.phdrs.len() as u64) };
        if (o, n) != want {
            said.problems.push(format!("the room for program headers is {o:#x}+{n:#x}, expected {want:x?}"));
        }
    }
    for b in &p.bodies {
        match b {
            Body::Phdrs => {
                if !p.phdrs.is_empty() {
                    w.write_align_program_headers();
                    for h in &p.phdrs {
                        w.write_program_header(&p.phdr(h));
                    }
                }
            }
            Body::Shdrs => heads(p, &mut w, &ids, &mut said),
            Body::Gap(n) => {
                let at = (w.offset() / n + 1) * n;
                w.pad_until(at)
            }
            Body::Sec(i) => {
                let ids = &ids;
                body(p, &mut w, ids, &mut said, *i, &mut |w, k, _| {
                    Ok(match k {
                        K::Strtab => w.write_strtab().map_err(e)?.0,
                        K::Shstrtab => w.write_shstrtab().map_err(e)?.0,
                        K::Dynstr => w.write_dynstr().map_err(e)?.0,
                        K::Verdef => {
                            let o = w.write_align_gnu_verdef(p.defs.len() as u16);
                            verdefs(p, w, ids);
                            o
                        }
                        _ => {
                            let o = w.write_align_gnu_verneed(p.needs.len() as u16);
                            verneeds(p, w, ids);
                            o
                        }
                    })
                })?
            }
        }
    }
    let mut h = Vec::new();
    if p.placeholder {
        let v: Vec<_> = p.phdrs.iter().map(|h| p.phdr(h)).collect();
        w.write_headers_to(&mut h, &v).map_err(e)?;
    } else {
        w.write_file_header_to(&mut h).map_err(e)?;
    }
    said.header = h;
    Ok(said)
}

// ------------------------------------------------------------------ the oracle

struct Out<'a> {
    p: &'a Plan,
    r: Rd<'a>,
    bad: Vec<String>,
    secs: Vec<RawSec>,
    /// what lies where
    ranges: Vec<(u64, u64, String)>,
}

impl Out<'_> {
    fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: T, want: T) {
        if got != want {
            self.bad.push(format!("{what}: {got:x?}, expected {want:x?}"));
        }
    }
    fn u(&mut self, o: u64, n: usize) -> u64 {
        match self.r.uint(o, n) {
            Some(v) => v,
            None => {
                self.bad.push(format!("nothing at {o:#x}"));
                0
            }
        }
    }
    fn strtab(&mut self, sec: u32) -> (u64, u64) {
        match self.secs.get(sec as usize) {
            Some(s) => (s.offset, s.offset + s.size),
            None => {
                self.bad.push(format!("no section {sec}"));
                (0, 0)
            }
        }
    }
    fn name(&mut self, sec: u32, off: u32) -> Vec<u8> {
        let (a, b) = self.strtab(sec);
        self.r.cstr(a + u64::from(off), b).map(|s| s.to_vec()).unwrap_or_else(|| {
            self.bad.push(format!("string {off:#x} is outside of table {sec}"));
            Vec::new()
        })
    }
}

/// Compare the file with the plan byte field by byte field.
pub fn check(p: &Plan, d: &[u8], said: &Said) -> Vec<String> {
    let w: u64 = if p.wide { 8 } else { 4 };
    let mut o = Out { p, r: Rd { d, be: p.big, is64: p.wide }, bad: said.problems.clone(), secs: Vec::new(), ranges: Vec::new() };
    let (eh, ph, sh) = if p.wide { (64u64, 56u64, 64u64) } else { (52, 32, 40) };
    o.eq("magic", d.get(..7), Some(&[0x7f, b'E', b'L', b'F', 1 + p.wide as u8, 1 + p.big as u8, 1]));
    o.eq("OS ABI", d.get(7..16), Some(&[p.os_abi, p.abi_version, 0, 0, 0, 0, 0, 0, 0]));
    let nsec = if p.secs.is_empty() { 0 } else { 1 + u64::from(p.pad) + p.secs.len() as u64 };
    let shstr = if p.secs.is_empty() { 0 } else { u64::from(p.of(|k| matches!(k, K::Shstrtab))) };
    let nph = p.phdrs.len() as u64;
    let f = |o: &mut Out<'_>, at: u64, n: usize, what: &str, want: u64| {
        let got = o.u(at, n);
        o.eq(what, got, want);
    };
    f(&mut o, 16, 2, "e_type", p.ty.into());
    f(&mut o, 18, 2, "e_machine", p.machine.into());
    f(&mut o, 20, 4, "e_version", 1);
    f(&mut o, 24, w as usize, "e_entry", p.entry);
    let phoff = o.u(24 + w, w as usize);
    let shoff = o.u(24 + 2 * w, w as usize);
    let t = 24 + 3 * w;
    f(&mut o, t, 4, "e_flags", p.flags.into());
    f(&mut o, t + 4, 2, "e_ehsize", eh);
    f(&mut o, t + 6, 2, "e_phentsize", if nph > 0 { ph } else { 0 });
    f(&mut o, t + 8, 2, "e_phnum", nph.min(0xffff));
    f(&mut o, t + 10, 2, "e_shentsize", if nsec > 0 { sh } else { 0 });
    f(&mut o, t + 12, 2, "e_shnum", if nsec >= 0xff00 { 0 } else { nsec });
    f(&mut o, t + 14, 2, "e_shstrndx", if shstr >= 0xff00 { 0xffff } else { shstr });
    o.ranges.push((0, eh, "file header".into()));
    if nph > 0 {
        o.eq("alignment of the program headers", phoff % w, 0);
        o.ranges.push((phoff, ph * nph, "program headers".into()));
        for (i, h) in p.phdrs.iter().enumerate() {
            let b = phoff + i as u64 * ph;
            let at: [(u64, usize); 8] = if p.wide {
                [(0, 4), (4, 4), (8, 8), (16, 8), (24, 8), (32, 8), (40, 8), (48, 8)]
            } else {
                [(0, 4), (24, 4), (4, 4), (8, 4), (12, 4), (16, 4), (20, 4), (28, 4)]
            };
            for (k, (a, n)) in at.iter().enumerate() {
                let got = o.u(b + a, *n);
                if got != h[k] {
                    o.bad.push(format!("field {k} of program header {i}: {got:#x}, expected {:#x}", h[k]));
                }
            }
        }
    } else {
        o.eq("e_phoff", phoff, 0);
    }
    if nsec == 0 {
        o.eq("e_shoff", shoff, 0);
        return finish(o);
    }
    o.eq("alignment of the section headers", shoff % w, 0);
    o.ranges.push((shoff, sh * nsec, "section headers".into()));
    for i in 0..nsec {
        let b = shoff + i * sh;
        let n = w as usize;
        let (name, ty) = (o.u(b, 4) as u32, o.u(b + 4, 4) as u32);
        let q = b + 8;
        let s = RawSec {
            name,
            ty,
            flags: o.u(q, n),
            addr: o.u(q + w, n),
            offset: o.u(q + 2 * w, n),
            size: o.u(q + 3 * w, n),
            link: o.u(q + 4 * w, 4) as u32,
            info: o.u(q + 4 * w + 4, 4) as u32,
            align: o.u(q + 4 * w + 8, n),
            entsize: o.u(q + 5 * w + 8, n),
        };
        o.secs.push(s);
        if !o.bad.is_empty() {
            return finish(o);
        }
    }
    // section 0 carries what does not fit the file header
    let z = &o.secs[0];
    let got = (z.name, z.ty, z.flags, z.addr, z.offset, z.size, z.link, z.info, z.align, z.entsize);
    let want = (0, 0, 0, 0, 0, if nsec >= 0xff00 { nsec } else { 0 }, if shstr >= 0xff00 { shstr as u32 } else { 0 }, if nph >= 0xffff { nph as u32 } else { 0 }, 0, 0);
    o.eq("section 0", got, want);
    for i in 1..=p.pad as usize {
        let z = &o.secs[i];
        if (z.ty, z.flags, z.size, z.link, z.info) != (1, 0, 0, 0, 0) {
            o.bad.push(format!("section {i} is not the empty one"));
        }
    }
    for i in 0..p.secs.len() {
        section(&mut o, i, shstr as u32);
    }
    finish(o)
}

fn finish(mut o: Out<'_>) -> Vec<String> {
    o.ranges.retain(|r| r.1 > 0);
    o.ranges.sort();
    for w in o.ranges.windows(2) {
        if w[0].0 + w[0].1 > w[1].0 {
            o.bad.push(format!("{} ({:#x}+{:#x}) overlaps {} at {:#x}", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0));
        }
    }
    if let Some(l) = o.ranges.last() {
        if l.0 + l.1 > o.r.d.len() as u64 {
            o.bad.push(format!("{} ends after the file", l.2));
        }
    }
    o.bad.truncate(6);
    o.bad
}

fn symbols(o: &mut Out<'_>, s: usize, list: &[Sy], str_sec: u32, shndx: Option<(u64, u64)>) {
    let p = o.p;
    let (base, size) = (o.secs[s].offset, o.secs[s].size);
    let e = if p.wide { 24 } else { 16 };
    o.eq("size of the symbol table", size, e * (list.len() as u64 + 1));
    if o.r.bytes(base, e).is_none_or(|b| b.iter().any(|x| *x != 0)) {
        o.bad.push("symbol 0 is not null".into());
    }
    for (k, y) in list.iter().enumerate() {
        let b = base + e * (k as u64 + 1);
        let name = o.u(b, 4) as u32;
        let (info, other, ndx, value, sz) = if p.wide {
            (o.u(b + 4, 1), o.u(b + 5, 1), o.u(b + 6, 2), o.u(b + 8, 8), o.u(b + 16, 8))
        } else {
            (o.u(b + 12, 1), o.u(b + 13, 1), o.u(b + 14, 2), o.u(b + 4, 4), o.u(b + 8, 4))
        };
        let ext = match shndx {
            Some((at, n)) if (k as u64 + 2) * 4 <= n => Some(o.u(at + 4 * (k as u64 + 1), 4)),
            _ => None,
        };
        let want = match y.sect {
            None => (u64::from(y.shndx), Some(0)),
            Some(x) => {
                let i = u64::from(p.index(x));
                if i >= 0xff00 { (0xffff, Some(i)) } else { (i, Some(0)) }
            }
        };
        let got = (o.name(str_sec, name), info, other, value, sz, ndx);
        let what = format!("symbol {} of table {s}", k + 1);
        o.eq(&what, got, (y.name.clone(), y.info.into(), y.other.into(), y.value, y.size, want.0));
        if shndx.is_some() {
            let what = format!("extended index of symbol {}", k + 1);
            o.eq(&what, ext, want.1);
        } else if ndx == 0xffff && str_sec == p.of(|k| matches!(k, K::Strtab)) && y.sect.is_some() {
            o.bad.push(format!("{what} needs an extended index, and there is no table of them"));
        }
    }
}

fn section(o: &mut Out<'_>, i: usize, shstr: u32) {
    let p = o.p;
    let w: u64 = if p.wide { 8 } else { 4 };
    let s = &p.secs[i];
    let at = p.index(i) as usize;
    let strtab = p.of(|k| matches!(k, K::Strtab));
    let sym = if p.wide { 24u64 } else { 16 };
    let ndyn = p.dyns.len() as u64 + 1;
    let raw = &o.secs[at];
    let (off, size) = (raw.offset, raw.size);
    let got = (raw.ty, raw.flags, raw.addr, raw.size, raw.link, raw.info, raw.align, raw.entsize);
    let nm = raw.name;
    let name = o.name(shstr, nm);
    let what = format!("section {at} ({})", em::lossy(&s.name));
    if name != s.name {
        o.bad.push(format!("{what} is named {}", em::lossy(&name)));
    }
    let f = |t: u32, flags: u64, addr: u64, size: u64, link: u32, info: u32, align: u64, ent: u64| (t, flags, addr, size, link, info, align, ent);
    // sizes that follow from the strings are taken from the file and checked by use
    let want = match &s.k {
        K::Data(d, _) => f(s.ty, s.flags, s.addr, d.len() as u64, s.link.map_or(0, |l| p.index(l)), s.info, s.align, s.entsize),
        K::NoBits(n) => f(s.ty, s.flags, s.addr, *n, s.link.map_or(0, |l| p.index(l)), s.info, s.align, s.entsize),
        K::Symtab => f(2, 0, 0, sym * (p.syms.len() as u64 + 1), strtab, p.num_local, w, sym),
        K::Shndx => f(18, 0, 0, 4 * (p.syms.len() as u64 + 1), p.symtab(), 0, 4, 4),
        K::Strtab | K::Shstrtab => f(3, 0, 0, size, 0, 0, 1, 0),
        K::Dynstr => f(3, 2, 0x1001, size, 0, 0, 1, 0),
        K::Dynsym => f(11, 2, 0x1000, sym * ndyn, p.dynstr(), p.num_local, w, sym),
        K::Dynamic => f(6, 3, 0x1002, 2 * w * p.dynamic.len() as u64, p.dynstr(), 0, w, 2 * w),
        K::Hash => f(5, 2, 0x1003, 8 + 4 * (u64::from(p.hash_buckets) + ndyn), p.dynsym(), 0, 4, 4),
        K::GnuHash => f(0x6fff_fff6, 2, 0x1004, 16 + w * u64::from(p.gnu.1) + 4 * u64::from(p.gnu.0) + 4 * u64::from(p.in_gnu()), p.dynsym(), 0, w, if p.wide { 0 } else { 4 }),
        K::Versym => f(0x6fff_ffff, 2, 0x1005, 2 * ndyn, p.dynsym(), 0, 2, 2),
        K::Verdef => f(0x6fff_fffd, 2, 0x1006, 20 * p.defs.len() as u64 + 8 * p.aux() as u64, p.dynstr(), p.defs.len() as u32, 4, 0),
        K::Verneed => f(0x6fff_fffe, 2, 0x1007, 16 * p.needs.len() as u64 + 16 * p.naux() as u64, p.dynstr(), p.needs.len() as u32, 4, 0),
        K::Attr => f(0x6fff_fff5, 0, 0, size, p.dynstr(), 0, 1, 0),
        K::Rels(t, d, rela, v) => {
            let e = w * if *rela { 3 } else { 2 };
            f(if *rela { 4 } else { 9 }, 0x40, 0, e * v.len() as u64, if *d { p.dynsym() } else { p.symtab() }, t.map_or(0, |t| p.index(t)), w, e)
        }
        K::Relr(v) => f(19, 0, 0, w * v.len() as u64, 0, 0, w, w),
        K::Comdat(y, m) => f(17, 0, 0, 4 * (m.len() as u64 + 1), p.symtab(), *y, 4, 4),
    };
    o.eq(&what, got, want);
    if !o.bad.is_empty() {
        return;
    }
    let is_nobits = matches!(s.k, K::NoBits(_));
    if !is_nobits {
        if off % want.6.max(1) != 0 {
            o.bad.push(format!("{what} lies at {off:#x}, which is not aligned to {}", want.6));
        }
        if o.r.bytes(off, size).is_none() {
            o.bad.push(format!("{what} is not inside of the file"));
            return;
        }
        o.ranges.push((off, size, what.clone()));
    }
    let body = || -> &[u8] { &o.r.d[off as usize..(off + size) as usize] };
    match &s.k {
        K::Data(d, _) => {
            if body() != &d[..] {
                o.bad.push(format!("{what}: the content differs"));
            }
        }
        K::Strtab | K::Shstrtab | K::Dynstr => {
            let b = body();
            if b.first() != Some(&0) || b.last() != Some(&0) {
                o.bad.push(format!("{what} does not start and end with a zero byte"));
            }
        }
        K::Symtab => {
            let x = p.of(|k| matches!(k, K::Shndx));
            let x = if x > 0 { o.secs.get(x as usize).map(|s| (s.offset, s.size)) } else { None };
            symbols(o, at, &p.syms, strtab, x)
        }
        K::Dynsym => {
            let l: Vec<Sy> = p
                .dyns
                .iter()
                .cloned()
                .map(|mut y| {
                    if y.sect.is_some_and(|x| p.index(x) >= 0xff00) {
                        y.sect = None;
                        y.shndx = 0xffff;
                    }
                    y
                })
                .collect();
            symbols(o, at, &l, p.dynstr(), None)
        }
        K::Dynamic => {
            for (k, (t, v)) in p.dynamic.iter().enumerate() {
                let b = off + 2 * w * k as u64;
                let mask = if p.wide { u64::MAX } else { 0xffff_ffff };
                let (gt, gv) = (o.u(b, w as usize), o.u(b + w, w as usize));
                o.eq(&format!("tag of dynamic entry {k}"), gt, *t as u64 & mask);
                match v {
                    DV::Int(n) => o.eq(&format!("dynamic entry {k}"), gv, *n),
                    DV::Str(s) => {
                        let g = o.name(p.dynstr(), gv as u32);
                        o.eq(&format!("string of dynamic entry {k}"), g, s.clone())
                    }
                }
            }
        }
        K::Hash => hash(o, at),
        K::GnuHash => gnu_hash(o, at),
        K::Versym => {
            let z = o.u(off, 2);
            o.eq("version of symbol 0", z, 0);
            for (k, y) in p.dyns.iter().enumerate() {
                let g = o.u(off + 2 * (k as u64 + 1), 2);
                o.eq(&format!("version of symbol {}", k + 1), g, y.versym.into());
            }
        }
        K::Verdef => {
            let mut at = off;
            for (k, d) in p.defs.iter().enumerate() {
                let v: Vec<u64> = (0..4).map(|i| o.u(at + 2 * i, 2)).collect();
                let (h, aux, next) = (o.u(at + 8, 4), o.u(at + 12, 4), o.u(at + 16, 4));
                o.eq(&format!("definition {k}"), (v, h), (vec![1, d.flags.into(), d.index.into(), d.names.len() as u64], em::sysv_hash(&d.names[0]).into()));
                let mut a = at + aux;
                for (j, n) in d.names.iter().enumerate() {
                    let (nm, nx) = (o.u(a, 4), o.u(a + 4, 4));
                    let g = o.name(p.dynstr(), nm as u32);
                    o.eq(&format!("name {j} of definition {k}"), g, n.clone());
                    let end = j + 1 == d.names.len() && !d.shared;
                    if j + 1 == d.names.len() && d.shared {
                        break;
                    }
                    if (nx == 0) != end {
                        o.bad.push(format!("name {j} of {} of definition {k}: the next one is at +{nx:#x}", d.names.len()));
                    }
                    a += nx;
                }
                if (next == 0) != (k + 1 == p.defs.len()) {
                    o.bad.push(format!("definition {k} of {}: the next one is at +{next:#x}", p.defs.len()));
                }
                at += next;
                if !o.bad.is_empty() {
                    return;
                }
            }
        }
        K::Verneed => {
            let mut at = off;
            for (k, (file, auxs)) in p.needs.iter().enumerate() {
                let (ver, cnt, f, aux, next) = (o.u(at, 2), o.u(at + 2, 2), o.u(at + 4, 4), o.u(at + 8, 4), o.u(at + 12, 4));
                let g = o.name(p.dynstr(), f as u32);
                o.eq(&format!("needed file {k}"), (ver, cnt, g), (1, auxs.len() as u64, file.clone()));
                if auxs.is_empty() {
                    o.eq(&format!("versions of needed file {k}"), aux, 0);
                }
                let mut a = at + aux;
                for (j, (flags, index, name)) in auxs.iter().enumerate() {
                    let (h, fl, other, nm, nx) = (o.u(a, 4), o.u(a + 4, 2), o.u(a + 6, 2), o.u(a + 8, 4), o.u(a + 12, 4));
                    let g = o.name(p.dynstr(), nm as u32);
                    o.eq(&format!("needed version {j} of file {k}"), (h, fl, other, g), (em::sysv_hash(name).into(), u64::from(*flags), u64::from(*index), name.clone()));
                    if (nx == 0) != (j + 1 == auxs.len()) {
                        o.bad.push(format!("needed version {j} of {} of file {k}: the next one is at +{nx:#x}", auxs.len()));
                    }
                    a += nx;
                }
                if (next == 0) != (k + 1 == p.needs.len()) {
                    o.bad.push(format!("needed file {k} of {}: the next one is at +{next:#x}", p.needs.len()));
                }
                at += next;
                if !o.bad.is_empty() {
                    return;
                }
            }
        }
        K::Attr => attributes(o, off, size),
        K::Rels(_, _, rela, v) => {
            let e = w * if *rela { 3 } else { 2 };
            for (k, r) in v.iter().enumerate() {
                let b = off + e * k as u64;
                let (ro, info) = (o.u(b, w as usize), o.u(b + w, w as usize));
                let want = if !p.wide {
                    u64::from(r.sym) << 8 | u64::from(r.ty)
                } else if p.machine == 8 && !p.big {
                    // the symbol as usual, then four bytes in big-endian order
                    u64::from(r.sym) | u64::from(r.ty.swap_bytes()) << 32
                } else {
                    u64::from(r.sym) << 32 | u64::from(r.ty)
                };
                o.eq(&format!("relocation {k} of {what}"), (ro, info), (r.offset, want));
                if *rela {
                    let a = o.u(b + 2 * w, w as usize);
                    let want = if p.wide { r.addend as u64 } else { r.addend as u32 as u64 };
                    o.eq(&format!("addend {k} of {what}"), a, want);
                }
            }
        }
        K::Relr(v) => {
            if body() != &words(p, v)[..] {
                o.bad.push(format!("{what}: the content differs"));
            }
        }
        K::Comdat(_, m) => {
            let g: Vec<u64> = (0..=m.len() as u64).map(|i| o.u(off + 4 * i, 4)).collect();
            let mut want = vec![1u64];
            want.extend(m.iter().map(|x| u64::from(p.index(*x))));
            o.eq(&what, g, want);
        }
        _ => {}
    }
}

fn hash(o: &mut Out<'_>, at: usize) {
    let p = o.p;
    let off = o.secs[at].offset;
    let (nb, nc) = (o.u(off, 4), o.u(off + 4, 4));
    o.eq("header of the hash table", (nb, nc), (p.hash_buckets.into(), p.dyns.len() as u64 + 1));
    // every bucket holds exactly the symbols that belong to it, each once
    let mut seen = vec![0u32; p.dyns.len() + 1];
    for b in 0..p.hash_buckets {
        match Model::sysv_chain(&o.r, &o.secs[at], b) {
            Err(e) => {
                o.bad.push(format!("hash bucket {b}: {e}"));
                return;
            }
            Ok(v) => {
                for i in v {
                    let y = &p.dyns[i as usize - 1];
                    if !y.hashed || em::sysv_hash(&y.name) % p.hash_buckets != b {
                        o.bad.push(format!("hash bucket {b} holds symbol {i} ({})", em::lossy(&y.name)));
                    }
                    seen[i as usize] += 1;
                }
            }
        }
    }
    for (k, y) in p.dyns.iter().enumerate() {
        if seen[k + 1] != u32::from(y.hashed) {
            o.bad.push(format!("symbol {} ({}) is {} times in the hash table", k + 1, em::lossy(&y.name), seen[k + 1]));
        }
    }
}

fn gnu_hash(o: &mut Out<'_>, at: usize) {
    let p = o.p;
    let off = o.secs[at].offset;
    let h: Vec<u64> = (0..4).map(|i| o.u(off + 4 * i, 4)).collect();
    o.eq("header of the GNU hash table", h, vec![p.gnu.0.into(), u64::from(p.gnu.3) + 1, p.gnu.1.into(), p.gnu.2.into()]);
    let n = p.dyns.len() as u32 + 1;
    // the chain entries of a bucket with the same hash but for its lowest bit
    let mut chains: std::collections::HashMap<(u32, u32), Vec<u32>> = Default::default();
    for (i, z) in p.dyns[p.gnu.3 as usize..].iter().enumerate() {
        let hv = em::gnu_hash(&z.name);
        chains.entry((hv | 1, hv % p.gnu.0)).or_default().push(p.gnu.3 + 1 + i as u32);
    }
    for (k, y) in p.dyns.iter().enumerate() {
        let hv = em::gnu_hash(&y.name);
        match Model::gnu_chain(&o.r, &o.secs[at], hv, n) {
            Err(e) => o.bad.push(format!("GNU hash of {}: {e}", em::lossy(&y.name))),
            Ok(v) => {
                let want = chains.get(&(hv | 1, hv % p.gnu.0)).cloned().unwrap_or_default();
                let there = k >= p.gnu.3 as usize;
                // the bloom filter may reject what is not in the table
                if v != want && (there || !v.is_empty()) {
                    o.bad.push(format!("GNU hash of {}: the chain visits {v:?}, expected {want:?}", em::lossy(&y.name)));
                }
            }
        }
    }
    // the bloom filter has no other bits than those of the symbols
    let w: u64 = if p.wide { 8 } else { 4 };
    let bits = (w * 8) as u32;
    let mut bloom = vec![0u64; p.gnu.1 as usize];
    for y in &p.dyns[p.gnu.3 as usize..] {
        let h = em::gnu_hash(&y.name);
        bloom[(h / bits & (p.gnu.1 - 1)) as usize] |= 1 << (h % bits) | 1 << ((h >> p.gnu.2) % bits);
    }
    for (i, b) in bloom.iter().enumerate() {
        let g = o.u(off + 16 + w * i as u64, w as usize);
        o.eq("bloom filter", g, *b);
    }
}

fn attributes(o: &mut Out<'_>, off: u64, size: u64) {
    let p = o.p;
    let d = &o.r.d[off as usize..(off + size) as usize];
    let Some(v) = em::attributes(&o.r, d) else {
        o.bad.push("the attributes section is malformed".into());
        return;
    };
    let mut want = Vec::new();
    for (vendor, subs) in &p.attrs {
        let mut s = Vec::new();
        for (tag, list, attrs) in subs {
            let l: Vec<usize> = list.iter().map(|i| *i as usize - 1).collect();
            let scope = match tag {
                1 => em::Scope::File,
                2 => em::Scope::Section(l),
                _ => em::Scope::Symbol(l),
            };
            let mut b = Vec::new();
            let uleb = |b: &mut Vec<u8>, mut v: u64| loop {
                let x = (v & 0x7f) as u8;
                v >>= 7;
                b.push(if v == 0 { x } else { x | 0x80 });
                if v == 0 {
                    break;
                }
            };
            for (t, x) in attrs {
                uleb(&mut b, *t);
                match x {
                    Ok(n) => uleb(&mut b, *n),
                    Err(s) => {
                        b.extend_from_slice(s);
                        b.push(0);
                    }
                }
            }
            s.push((scope, b));
        }
        want.push(em::Attr { vendor: vendor.clone(), subs: s });
    }
    o.eq("attributes", v, want);
}

// ------------------------------------------------------------------ scenarios

pub struct DynSubject(pub Plan);

impl Subject for DynSubject {
    fn name(&self) -> String {
        format!("elf writer {}{}", if self.0.wide { 64 } else { 32 }, if self.0.big { "be" } else { "le" })
    }
    fn emit(&self, b: &mut dyn WritableBuffer) -> Result<(), String> {
        let s = two_phase(&self.0, b)?;
        if s.problems.is_empty() { Ok(()) } else { Err(s.problems.join("; ")) }
    }
    fn valid(&self) -> Option<bool> {
        Some(self.0.refused().is_none())
    }
}

pub fn subject(ctx: &mut Ctx) -> R<Box<dyn Subject>> {
    let mut p = gen_plan(ctx, false);
    // what cannot be expressed is noticed after the announcement
    p.dynamic.retain(|(t, v)| i32::try_from(*t).is_ok() && !matches!(v, DV::Int(v) if *v > 0xffff_ffff));
    Ok(Box::new(DynSubject(p)))
}

/// A file made by the writer, empty if it was refused.
pub fn file(ctx: &mut Ctx) -> Vec<u8> {
    let p = gen_plan(ctx, false);
    let mut v = Vec::new();
    match two_phase(&p, &mut v) {
        Ok(_) => v,
        Err(_) => Vec::new(),
    }
}

/// A file made by the writer with only what a rewriter has to understand, empty if it was refused.
pub fn tame_file(ctx: &mut Ctx) -> Vec<u8> {
    let mut p = gen_plan(ctx, false);
    (p.pad, p.phdrs) = (0, vec![[1, 5, 0, 0, 0, 0, 0, 0x1000]]);
    p.bodies.retain(|b| !matches!(b, Body::Phdrs));
    p.bodies.insert(0, Body::Phdrs);
    if p.secs.iter().any(|s| matches!(s.k, K::Dynamic)) && ctx.c.chance(3, 4) {
        p.phdrs.push([2, 6, 0, 0, 0, 0, 0, 8]);
    }
    let (syms, secs) = (p.syms.len() as u32, p.secs.len() as u32);
    for s in &mut p.secs {
        if matches!(s.k, K::Comdat(..)) {
            s.k = K::Data(Vec::new(), 0);
            s.ty = 1;
        }
        if !matches!(s.ty, 0 | 1 | 7 | 8 | 14) {
            s.ty = 1;
        }
        s.flags &= 0x437;
        if matches!(s.k, K::NoBits(_)) {
            s.flags &= !2;
        }
        if matches!(s.k, K::Rels(_, true, ..)) {
            s.k = K::Data(Vec::new(), 0);
            s.ty = 1;
        }
    }
    p.num_local = 1;
    for s in p.syms.iter_mut().chain(&mut p.dyns) {
        s.hashed = true;
        if s.info < 0x10 {
            s.info |= 0x10;
        }
    }
    let nb = p.gnu.0;
    p.dyns.sort_by_key(|s| em::gnu_hash(&s.name) % nb);
    p.gnu.3 = 0;
    let mut index = Vec::new();
    for (i, d) in p.defs.iter_mut().enumerate() {
        d.shared = false;
        d.flags &= !1;
        if i == 0 && d.index == 1 {
            d.flags = 1;
            d.names.truncate(1);
        }
        index.push(d.index);
    }
    let good = p.defs.iter().enumerate().all(|(i, d)| (d.index != 1 || i == 0) && !index[..i].contains(&d.index));
    if !good {
        return Vec::new();
    }
    // values of tables are the linker's to fill in
    p.dynamic.retain(|(t, v)| !em::is_auto_tag(*t as u64) && i32::try_from(*t).is_ok() && !matches!(v, DV::Int(v) if *v > 0xffff_ffff) && em::is_string_tag(*t as u64) == matches!(v, DV::Str(_)));
    for (_, subs) in &mut p.attrs {
        for (tag, list, _) in subs {
            for i in list.iter_mut() {
                *i = 1 + *i % if *tag == 2 { secs } else { syms.max(1) };
            }
            if *tag == 3 && syms == 0 {
                list.clear();
            }
        }
    }
    let mut v = Vec::new();
    if two_phase(&p, &mut v).is_err() {
        return Vec::new();
    }
    // everything is loaded where it is in the file
    let get = |v: &[u8], o: usize, n: usize| (0..n).fold(0u64, |x, i| x << 8 | u64::from(v[o + if p.big { i } else { n - 1 - i }]));
    let set = |v: &mut [u8], o: usize, n: usize, x: u64| (0..n).for_each(|i| v[o + if p.big { n - 1 - i } else { i }] = (x >> (8 * i)) as u8);
    let w = if p.wide { 8 } else { 4 };
    let (eh, es) = if p.wide { (64, 64) } else { (52, 40) };
    let (shoff, n) = (get(&v, 24 + 2 * w, w) as usize, get(&v, eh - 4, 2) as usize);
    let mut end = 0;
    for i in 0..n {
        let h = shoff + i * es;
        if get(&v, h + 8, w) & 2 != 0 {
            let off = get(&v, h + 8 + 2 * w, w);
            set(&mut v, h + 8 + w, w, off);
            end = end.max(off + get(&v, h + 8 + 3 * w, w));
        }
    }
    if get(&v, 24 + w, w) as usize != eh {
        return v;
    }
    let (a, b) = if p.wide { (32, 40) } else { (16, 20) };
    set(&mut v, eh + a, w, end);
    set(&mut v, eh + b, w, end);
    if let Some(h) = (0..n).map(|i| shoff + i * es).find(|h| get(&v, h + 4, 4) == 6)
        && p.phdrs.len() == 2
    {
        let ph = eh + if p.wide { 56 } else { 32 };
        let (off, size) = (get(&v, h + 8 + 2 * w, w), get(&v, h + 8 + 3 * w, w));
        let (o, va, pa) = if p.wide { (8, 16, 24) } else { (4, 8, 12) };
        for f in [o, va, pa] {
            set(&mut v, ph + f, w, off);
        }
        set(&mut v, ph + a, w, size);
        set(&mut v, ph + b, w, size);
    }
    v
}

fn writer(ctx: &mut Ctx) -> R {
    let single = ctx.c.chance(1, 2);
    let p = gen_plan(ctx, single);
    ctx.ev(|| format!("{p:?}"));
    written(ctx, p, single)
}

fn bulk(ctx: &mut Ctx) -> R {
    let single = ctx.c.chance(1, 2);
    let p = plan(ctx, single, true);
    if p.dyns.len() < 1000 || p.pad > 0 || p.phdrs.len() > 1000 {
        return Ok(());
    }
    ctx.probe("bulk_files");
    ctx.ev(|| format!("{} dynamic symbols", p.dyns.len()));
    written(ctx, p, single)
}

fn written(ctx: &mut Ctx, p: Plan, single: bool) -> R {
    let refused = p.refused();
    let seed = ctx.c.u64();
    let mut d = Vec::new();
    let r = env::with_hash_seed(seed, 4 << 20, || if single { single_phase(&p, &mut d) } else { two_phase(&p, &mut d) });
    let r = match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    };
    let said = match (r, refused) {
        (Err(e), Some(w)) => {
            ctx.ev(|| format!("refused ({w}): {e}"));
            ctx.probe("plan_refused");
            return Ok(());
        }
        (Err(e), None) => return violation("plan-refused", e),
        (Ok(_), Some(w)) => return violation("inexpressible-accepted", w.to_string()),
        (Ok(s), None) => s,
    };
    let before = d.clone();
    d.splice(..said.header.len(), said.header.iter().copied());
    ctx.fold_bytes(&d);
    ctx.sig(fnv(&d));
    ctx.probe(if single { "single_phase_files" } else { "two_phase_files" });
    let bad = check(&p, &d, &said);
    if !bad.is_empty() {
        return violation("tables", bad.join("; "));
    }
    // the same file once more, delivered to a stream
    let cfg = SinkCfg {
        short: *ctx.c.pick(&[0, 8, 32]),
        eintr: *ctx.c.pick(&[0, 2, 16]),
        one_byte: false,
        fail_at: if ctx.c.chance(1, 2) { ctx.c.below(d.len() as u64) } else { u64::MAX },
        fail_kind: *ctx.c.pick(&[FailKind::Full, FailKind::Eio, FailKind::Zero, FailKind::Transient]),
        flush_fail: false,
    };
    let mut sink = SimSink::new(ctx, cfg);
    let (res, said2) = {
        let mut b = StreamingBuffer::new(&mut sink);
        let r = if single { single_phase(&p, &mut b) } else { two_phase(&p, &mut b) };
        (b.result(), r)
    };
    match said2 {
        Err(e) => return violation("plan-refused", format!("the second time: {e}")),
        Ok(s) => ensure!(s.header == said.header && s.offs == said.offs, "second-differs", "the writer gave other positions the second time"),
    }
    if cfg.fail_at != u64::MAX {
        ensure!(res.is_err(), "failure-not-reported", "a stream that failed at {} of {} was accepted", cfg.fail_at, d.len());
        ensure!(before.starts_with(&sink.data), "not-a-prefix", "{} bytes delivered are no prefix", sink.data.len());
    } else {
        ensure!(res.is_ok(), "sink-outcome", "{res:?} from a stream without failures");
        ensure!(sink.data == before, "second-differs", "the file differs the second time");
    }
    // and the crate finds by name what it lists
    if p.pad == 0 && p.phdrs.len() < 100 {
        // a lookup only finds what was put into the hash table
        if p.dyns.len() < 1000 && p.dyns.iter().all(|y| y.hashed) {
            crate::sc_lookup::all_lookups(ctx, &d)?;
        }
        lookups(ctx, &p, &d)?;
    }
    Ok(())
}

/// What the plan says about the dynamic symbols, asked of the crate.
fn lookups(ctx: &mut Ctx, p: &Plan, d: &[u8]) -> R {
    if p.wide { lookups_in::<elf::FileHeader64<Endianness>>(ctx, p, d) } else { lookups_in::<elf::FileHeader32<Endianness>>(ctx, p, d) }
}

fn lookups_in<E: object::read::elf::FileHeader<Endian = Endianness>>(ctx: &mut Ctx, p: &Plan, d: &[u8]) -> R {
    use object::read::elf::SectionHeader as _;
    let Ok(h) = <E as object::read::elf::FileHeader>::parse(d) else { return violation("own-file-refused", "the file header".to_string()) };
    let en = p.endian();
    let secs = match h.sections(en, d) {
        Ok(s) => s,
        Err(e) => return violation("own-file-refused", format!("sections: {e}")),
    };
    if p.dynsym() == 0 {
        return Ok(());
    }
    let syms = match secs.symbols(en, d, elf::SHT_DYNSYM) {
        Ok(s) => s,
        Err(e) => return violation("own-file-refused", format!("dynamic symbols: {e}")),
    };
    ensure!(syms.len() == p.dyns.len() + 1, "own-file-read", "{} dynamic symbols", syms.len());
    let vers = match secs.versions(en, d) {
        Ok(v) => v,
        Err(e) => return violation("own-file-refused", format!("versions: {e}")),
    };
    if let Some(vt) = &vers {
        for (k, y) in p.dyns.iter().enumerate() {
            let got = match vt.version_index(en, object::SymbolIndex(k + 1)) {
                i if i.is_local() || i.is_global() => continue,
                i => i,
            };
            ensure!(got.0 == y.versym, "own-file-read", "version index of symbol {} is {:#x}, written {:#x}", k + 1, got.0, y.versym);
            let want: Option<(Vec<u8>, Option<Vec<u8>>)> = p
                .defs
                .iter()
                .find(|v| v.index == y.versym & 0x7fff)
                .map(|v| (v.names[0].clone(), None))
                .or_else(|| p.needs.iter().find_map(|(f, a)| a.iter().find(|a| a.1 == y.versym & 0x7fff).map(|a| (a.2.clone(), Some(f.clone())))));
            match (vt.version(got.index()), want) {
                (Ok(Some(v)), Some((n, f))) => {
                    ensure!(v.name() == &n[..], "own-file-read", "the version of symbol {} is {:?}", k + 1, v.name());
                    ensure!(v.file() == f.as_deref(), "own-file-read", "the version of symbol {} is from {:?}", k + 1, v.file());
                    ensure!(v.hash() == em::sysv_hash(&n), "own-file-read", "hash of version {:?}", v.name());
                }
                (Ok(None), None) => {}
                (g, w) => return violation("own-file-read", format!("version {:#x}: {g:?}, expected {w:?}", y.versym)),
            }
            ctx.steps += 1;
        }
    }
    // the dynamic table
    let mut dy = Vec::new();
    for s in secs.iter() {
        if let Ok(Some((list, link))) = s.dynamic(en, d) {
            use object::read::elf::Dyn as _;
            dy = list.iter().map(|x| (x.d_tag(en).0 as i64, x.d_val(en).into())).collect::<Vec<(i64, u64)>>();
            ensure!(p.dynstr() == 0 || link.0 as u32 == p.dynstr(), "own-file-read", "the dynamic table links to {link:?}");
        }
    }
    if p.of(|k| matches!(k, K::Dynamic)) != 0 {
        ensure!(dy.len() == p.dynamic.len(), "own-file-read", "{} dynamic entries", dy.len());
    }
    Ok(())
}

pub fn props(v: &mut Vec<crate::runner::Prop>) {
    v.push(crate::runner::Prop {
        id: "C21",
        level: "exploration",
        rule: "every table of the file decodes, with an independent reader, to exactly the plan",
        scenarios: vec![("writer", 1000, writer as _), ("bulk", 1, bulk as _)],
        real: &["write::elf::Writer in two-phase and single-phase mode", "Encoder", "AttributesWriter", "StringTable", "StreamingBuffer", "the ELF readers and lookups"],
        stub: &["the file being written", "the hash seed"],
        assumptions: &["plans respect the documented order of calls; dynamic symbols in sections from 0xff00 have no index (documented)"],
        quick_secs: 25,
        thorough_secs: 900,
    });
}
