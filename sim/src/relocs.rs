//! Relocations: what each format can express (golden map), generation, and reading back.
use crate::choices::Choices;
use crate::describe::{Builder, MReloc, Op, Place, Target, elf_archs, targets};
use object::read::{Object as _, ObjectSection as _, RelocationTarget};
use object::write::{Object, Relocation, Symbol, SymbolSection};
use object::{
    Architecture as A, BinaryFormat as B, RelocationEncoding as RE, RelocationFlags, RelocationKind as RK, SectionKind, SymbolFlags,
    SymbolKind as SK, SymbolScope,
};
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub const RKINDS: [RK; 12] = [
    RK::Absolute, RK::Relative, RK::None, RK::Got, RK::GotRelative, RK::GotBaseRelative, RK::GotBaseOffset, RK::PltRelative,
    RK::ImageOffset, RK::SectionOffset, RK::SectionIndex, RK::Unknown,
];
pub const RENCS: [RE; 13] = [
    RE::Generic, RE::X86Signed, RE::X86RipRelative, RE::X86RipRelativeMovq, RE::X86Branch, RE::S390xDbl, RE::AArch64Call,
    RE::LoongArchBranch, RE::SharcTypeA, RE::Unknown, RE::SharcTypeB, RE::E2KLit, RE::E2KDisp,
];

#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub kind: RK,
    pub enc: RE,
    pub size: u8,
    /// also accepted with a non-zero addend
    pub addend: bool,
    pub rkind: RK,
    pub renc: RE,
    pub rsize: u8,
}

fn key(t: &Target) -> String {
    format!("{:?} {:?}", t.fmt, t.arch)
}

const GOLDEN: &str = include_str!("../data/reloc_map.txt");

pub fn map() -> &'static BTreeMap<String, Vec<Entry>> {
    static M: OnceLock<BTreeMap<String, Vec<Entry>>> = OnceLock::new();
    M.get_or_init(|| {
        let mut m: BTreeMap<String, Vec<Entry>> = BTreeMap::new();
        let k = |s: &str| *RKINDS.iter().find(|k| format!("{k:?}") == s).unwrap();
        let e = |s: &str| *RENCS.iter().find(|k| format!("{k:?}") == s).unwrap();
        for l in GOLDEN.lines().filter(|l| !l.starts_with('#') && !l.is_empty()) {
            let f: Vec<&str> = l.split_whitespace().collect();
            m.entry(format!("{} {}", f[0], f[1])).or_default().push(Entry {
                kind: k(f[2]), enc: e(f[3]), size: f[4].parse().unwrap(), addend: f[5] == "addend",
                rkind: k(f[7]), renc: e(f[8]), rsize: f[9].parse().unwrap(),
            });
        }
        m
    })
}

pub fn entries(t: &Target) -> &'static [Entry] {
    map().get(&key(t)).map(|v| &v[..]).unwrap_or(&[])
}

/// A request that the format can express.
pub fn must_accept(t: &Target, op: &Op) -> bool {
    let Op::Reloc { addend, flags: RelocationFlags::Generic { kind, encoding, size }, sub: None, zero: 8, .. } = op else { return false };
    // The offset becomes part of the addend, which may not fit these sizes.
    if t.fmt == B::MachO && *kind == RK::Relative && *size < 32 {
        return false;
    }
    entries(t).iter().any(|e| e.kind == *kind && e.enc == *encoding && e.size == *size && (*addend == 0 || e.addend && (-100..100).contains(addend) && e.size >= 24))
}

/// Produce the map from the code (development only; the result is reviewed and committed).
pub fn dump_map() {
    println!("# format arch kind encoding size addend|zero => kind encoding size");
    let n_elf = elf_archs().len() * 2;
    for (i, t) in targets().into_iter().enumerate() {
        if (i < n_elf && i % 2 == 1 && t.arch != A::Arm) || t.sub.is_some() {
            continue;
        }
        if t.arch == A::Arm && t.fmt == B::Elf && i % 2 == 0 {
            continue;
        }
        for k in RKINDS {
            for e in RENCS {
                for size in 0..=64u8 {
                    if size == 0 && t.fmt == B::Xcoff {
                        continue;
                    }
                    let one = |addend: i64| -> Option<(RK, RE, u8)> {
                        let mut o: Object = t.new_object();
                        let s = o.add_section(b"__TEXT".to_vec(), b"t".to_vec(), SectionKind::Text);
                        o.append_section_data(s, &[0; 16], 8);
                        let y = o.add_symbol(Symbol {
                            name: b"y".to_vec(), value: 0, size: 0, kind: SK::Data, scope: SymbolScope::Dynamic, weak: false,
                            section: SymbolSection::Undefined, flags: SymbolFlags::None,
                        });
                        let f = RelocationFlags::Generic { kind: k, encoding: e, size };
                        o.add_relocation(s, Relocation { offset: 8, symbol: y, addend, flags: f }).ok()?;
                        let b = o.write().ok()?;
                        let f = object::File::parse(&b[..]).unwrap();
                        let sec = f.sections().find(|s| s.name_bytes() == Ok(b"t")).unwrap();
                        let (_, r) = sec.relocations().next().unwrap();
                        Some((r.kind(), r.encoding(), r.size()))
                    };
                    if let Some((rk, re, rs)) = one(0) {
                        println!(
                            "{} {k:?} {e:?} {size} {} => {rk:?} {re:?} {rs}",
                            key(&t),
                            if one(100).is_some() { "addend" } else { "zero" }
                        );
                    }
                }
            }
        }
    }
}

fn addend(c: &mut Choices, wide: bool) -> i64 {
    match c.below(8) {
        0 | 1 => 0,
        2 => -4 - c.below(6) as i64,
        3 => c.below(256) as i64 - 128,
        4 => -4,
        5 => c.below(1 << 20) as i64 - (1 << 19),
        6 if wide => c.u64() as i64 >> c.below(32),
        _ => c.below(1 << 32) as u32 as i32 as i64,
    }
}

pub fn gen_reloc(c: &mut Choices, b: &Builder, with_data: &[usize], syms: &[usize]) -> Option<Op> {
    let t = b.t;
    let m = &b.m;
    let cand: Vec<usize> = with_data.iter().copied().filter(|s| m.secs[*s].data.len() >= 8).collect();
    let sec = *cand.get(c.idx(cand.len().max(1)))?;
    let s = &m.secs[sec];
    let slots = s.data.len() as u64 / 8;
    let mut offset = c.below(slots) * 8;
    if (0..8).any(|i| s.owned.contains(&(offset + i))) || s.relocs.iter().any(|r| r.offset.abs_diff(offset) < 8) {
        return None;
    }
    let files = t.fmt == B::MachO && c.chance(1, 40);
    let sc: Vec<usize> = syms.iter().copied().filter(|i| files || m.syms[*i].kind != SK::File).collect();
    let sym = *sc.get(c.idx(sc.len().max(1)))?;
    let es = entries(&t);
    let mut sub = None;
    let (flags, ad) = match c.below(16) {
        0 => {
            // anything at all; most of it cannot be expressed
            let f = RelocationFlags::Generic {
                kind: *c.pick(&RKINDS),
                encoding: *c.pick(&RENCS),
                size: *c.pick(&[0u8, 7, 8, 12, 16, 21, 24, 26, 32, 48, 64]),
            };
            (f, addend(c, false))
        }
        1 | 2 => (explicit(c, &t), if c.chance(1, 2) { 0 } else { addend(c, false) }),
        _ => {
            if es.is_empty() {
                return None;
            }
            let e = &es[c.idx(es.len())];
            let wide = e.size == 64 && t.is_64();
            let mut ad = addend(c, wide);
            if e.size < 32 && e.size > 0 && !explicit_addends(&t) && c.chance(3, 4) {
                ad = 0;
            }
            if t.fmt == B::MachO && c.chance(1, 8) && matches!(t.arch, A::X86_64 | A::Aarch64)
                && matches!(e.kind, RK::Absolute | RK::Relative) && e.size >= 32 && e.enc == RE::Generic
            {
                let any = c.chance(1, 20);
                let v: Vec<usize> = sc.iter().copied().filter(|i| any || m.syms[*i].kind != SK::Section || t.arch == A::Aarch64).collect();
                sub = v.get(c.idx(v.len().max(1))).copied();
            }
            (RelocationFlags::Generic { kind: e.kind, encoding: e.enc, size: e.size }, ad)
        }
    };
    if c.chance(1, 60) {
        // place outside the section
        offset = s.data.len() as u64 - c.below(3);
        if s.relocs.iter().any(|r| r.offset.abs_diff(offset) < 8) {
            return None;
        }
        return Some(Op::Reloc { sec, offset, sym, addend: 1 + addend(c, false).abs(), flags, sub, zero: 0 });
    }
    Some(Op::Reloc { sec, offset, sym, addend: ad, flags, sub, zero: 8 })
}

/// Formats that store the addend in the relocation itself.
pub fn explicit_addends(t: &Target) -> bool {
    t.fmt == B::Elf && !matches!(t.arch, A::Arm | A::Bpf | A::I386 | A::Hppa | A::Mips | A::Sbf | A::SuperH)
}

fn explicit(c: &mut Choices, t: &Target) -> RelocationFlags {
    use object::{elf, macho, pe, xcoff};
    match t.fmt {
        B::Elf => RelocationFlags::Elf { r_type: elf::RelocationType(c.below(if t.arch == A::Sparc64 { 80 } else { 256 }) as u32) },
        B::Coff => RelocationFlags::Coff { typ: pe::RelocationType(c.below(20) as u16) },
        B::MachO => {
            let r_type = match t.arch {
                // without the paired types, which are not relocations of their own
                A::Aarch64 | A::Aarch64_Ilp32 => *c.pick(&[0u8, 2, 3, 4, 5, 6, 7, 8, 9]),
                A::X86_64 => *c.pick(&[0u8, 1, 2, 3, 4, 6, 7, 8, 9]),
                _ => *c.pick(&[0u8, 3, 5]),
            };
            let pcrel = c.chance(1, 2);
            RelocationFlags::MachO { r_type: macho::RelocationType(r_type), r_pcrel: pcrel, r_length: 2 + c.below(2) as u8 * (!pcrel) as u8 }
        }
        _ => RelocationFlags::Xcoff {
            r_rtype: xcoff::RelocationType(*c.pick(&[0u8, 1, 2, 3, 5, 6, 0xf, 0x12, 0x13, 0x1a])),
            r_rsize: *c.pick(&[7u8, 15, 31, 31, 63, 0x1f | 0x40]),
        },
    }
}

fn sign_extend(v: u64, bits: u32) -> i64 {
    if bits == 0 || bits >= 64 {
        return v as i64;
    }
    ((v << (64 - bits)) as i64) >> (64 - bits)
}

/// Canonical text of a described relocation as it must read back.
pub fn canon_expected(b: &Builder, r: &MReloc, canon: &dyn Fn(usize) -> String) -> String {
    let t = b.t;
    let m = &b.m;
    let target = if t.fmt == B::MachO && m.syms[r.sym].kind == SK::Section {
        match m.syms[r.sym].place {
            Place::Sec(i) => format!("section {i}"),
            _ => "?".into(),
        }
    } else {
        canon(r.sym)
    };
    let sub = r.sub.map(canon);
    let mut addend = r.addend;
    let what;
    let mut bits = 64;
    match r.flags {
        RelocationFlags::Generic { kind, encoding, size } => {
            // the encoding is a hint: where it makes no difference for an architecture it is ignored
            let es = entries(&t);
            let found = es
                .iter()
                .find(|e| e.kind == kind && e.enc == encoding && e.size == size)
                .or_else(|| es.iter().find(|e| e.kind == kind && e.enc == RE::Generic && e.size == size));
            match found {
                Some(e) => {
                    what = format!("{:?} {:?} {}", e.rkind, e.renc, e.rsize);
                    bits = e.rsize as u32;
                }
                None => {
                    let encoding = if t.fmt == B::Xcoff { RE::Generic } else { encoding };
                    what = format!("{kind:?} {encoding:?} {size}");
                    bits = size as u32;
                }
            }
            if t.fmt == B::MachO && matches!(t.arch, A::Aarch64 | A::Aarch64_Ilp32) && kind == RK::Relative && encoding == RE::Generic {
                // S - (section + offset) + A
                addend = addend.wrapping_sub(r.offset as i64);
            }
        }
        f => {
            what = format!("{f:?}");
            if let RelocationFlags::MachO { r_length, .. } = f {
                bits = 8 << r_length;
            }
            if let RelocationFlags::Xcoff { r_rsize, .. } = f {
                bits = (r_rsize as u32 & 0x3f) + 1;
            }
            if matches!(t.fmt, B::Coff | B::Elf | B::MachO) {
                bits = bits.min(32);
            }
        }
    }
    if t.fmt == B::Elf && (!t.is_64() || !explicit_addends(&t)) {
        bits = bits.min(32);
    }
    if explicit_addends(&t) {
        // the addend field has the width of the class
        bits = if t.is_64() { 64 } else { 32 };
    }
    if t.fmt == B::MachO && bits == 26 {
        bits = 24;
    }
    let a = if bits < 16 { 0 } else { sign_extend(addend as u64, bits) };
    format!("{:#x} -> [{target}] {what} addend {a:#x}{}", r.offset, sub.map(|s| format!(" minus [{s}]")).unwrap_or_default())
}

pub fn canon_actual(
    b: &Builder, off: u64, r: &object::read::Relocation, want_flags: bool, data: &[u8], canon: &dyn Fn(usize) -> String,
    sec: &dyn Fn(usize) -> String,
) -> String {
    let t = b.t;
    let target = match r.target() {
        RelocationTarget::Symbol(i) => canon(i.0),
        RelocationTarget::Section(i) => sec(i.0),
        x => format!("{x:?}"),
    };
    let sub = r.subtractor().map(|s| canon(s.0));
    let what = if want_flags { format!("{:?}", r.flags()) } else { format!("{:?} {:?} {}", r.kind(), r.encoding(), r.size()) };
    let mut bits = if want_flags { 64 } else { r.size() as u32 };
    if want_flags {
        if let RelocationFlags::MachO { r_length, .. } = r.flags() {
            bits = 8 << r_length;
        }
        if let RelocationFlags::Xcoff { r_rsize, .. } = r.flags() {
            bits = (r_rsize as u32 & 0x3f) + 1;
        }
        if matches!(t.fmt, B::Coff | B::Elf | B::MachO) {
            bits = bits.min(32);
        }
    }
    if t.fmt == B::Elf && (!t.is_64() || !explicit_addends(&t)) {
        bits = bits.min(32);
    }
    if explicit_addends(&t) {
        bits = if t.is_64() { 64 } else { 32 };
    }
    let mut a = r.addend();
    if r.has_implicit_addend() {
        let n = if t.fmt == B::MachO && bits == 26 {
            4
        } else if (t.fmt == B::Elf && r.size() == 64) || matches!(r.flags(), RelocationFlags::MachO { r_length: 3, .. }) {
            8
        } else {
            bits as usize / 8
        };
        let o = off as usize;
        if let Some(d) = data.get(o..o + n.min(8)) {
            let mut v = 0u64;
            let mut d = d.to_vec();
            if t.endian == object::Endianness::Big {
                d.reverse();
            }
            for (i, x) in d.iter().enumerate() {
                v |= (*x as u64) << (8 * i);
            }
            a = a.wrapping_add(sign_extend(v, n as u32 * 8));
        }
    }
    if t.fmt == B::MachO && bits == 26 {
        bits = 24;
    }
    let a = if bits < 16 { 0 } else { sign_extend(a as u64, bits) };
    format!("{off:#x} -> [{target}] {what} addend {a:#x}{}", sub.map(|s| format!(" minus [{s}]")).unwrap_or_default())
}
