//! Comparison of a file that was read back with the description it was written from.
use crate::ctx::{R, violation};
use crate::ensure;
use crate::describe::{Builder, MSym, Place, read_kind};
use crate::relocs;
use object::read::{File, Object as _, ObjectComdat as _, ObjectSection as _, ObjectSymbol as _, ReadRef, SymbolSection};
use object::{
    Architecture as A, BinaryFormat as B, ComdatKind, RelocationFlags, SectionFlags, SectionKind as K, SymbolFlags, SymbolKind as SK,
    SymbolScope as SC,
};
use std::collections::{BTreeMap, BTreeSet};

fn t(b: &[u8]) -> String {
    let mut s: String = b.iter().take(60).flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect();
    if b.len() > 60 {
        s.push_str(&format!("..({} bytes, {:016x})", b.len(), crate::choices::fnv(b)));
    }
    s
}

/// file section index -> described section
pub struct Map {
    pub to_model: BTreeMap<usize, usize>,
    pub to_file: Vec<usize>,
}

pub fn section_map<'d, D: ReadRef<'d>>(b: &Builder, f: &File<'d, D>) -> R<Map> {
    let mut to_model = BTreeMap::new();
    let mut to_file = Vec::new();
    for s in f.sections() {
        let own = match s.flags() {
            SectionFlags::Elf { sh_type, .. } => !matches!(sh_type.0, 0 | 2 | 3 | 4 | 9 | 17 | 18),
            _ => true,
        };
        if own {
            to_model.insert(s.index().0, to_file.len());
            to_file.push(s.index().0);
        }
    }
    ensure!(
        to_file.len() == b.m.secs.len(),
        "section-count",
        "{} sections described, {} found in the file ({})",
        b.m.secs.len(),
        to_file.len(),
        b.t.name()
    );
    Ok(Map { to_model, to_file })
}

pub fn sections<'d, D: ReadRef<'d>>(b: &Builder, f: &File<'d, D>) -> R {
    let map = section_map(b, f)?;
    let tn = b.t.name();
    ensure!(f.format() == b.t.fmt, "format", "{tn}: format {:?}", f.format());
    ensure!(f.architecture() == b.t.arch, "architecture", "{tn}: architecture {:?}", f.architecture());
    // A CPU subtype given explicitly may say something else.
    if b.m.cpu_subtype.is_none() {
        ensure!(f.sub_architecture() == b.t.sub, "sub-architecture", "{tn}: {:?}", f.sub_architecture());
    }
    ensure!(f.endianness() == b.t.endian, "endianness", "{tn}: {:?}", f.endianness());
    // Documented: COFF is always reported as 32-bit.
    ensure!(f.is_64() == (b.t.is_64() && b.t.fmt != B::Coff), "class", "{tn}: is_64 {:?}", f.is_64());
    for (i, m) in b.m.secs.iter().enumerate() {
        let s = match f.section_by_index(object::SectionIndex(map.to_file[i])) {
            Ok(s) => s,
            Err(e) => return violation("section-missing", format!("{tn}: section {i}: {e}")),
        };
        let w = |what: &str, got: String, want: String| -> R {
            if got != want {
                return violation(
                    format!("section-{what}"),
                    format!("{tn}: section {i} `{}` kind {:?}: {what} reads {got}, described {want}", t(&m.name), m.kind),
                );
            }
            Ok(())
        };
        w("name", format!("{:?}", s.name_bytes().map(t)), format!("{:?}", Ok::<_, object::read::Error>(t(&m.name))))?;
        let seg = match b.t.fmt {
            B::MachO => Some(m.seg.clone()),
            _ => None,
        };
        w("segment", format!("{:?}", s.segment_name_bytes().map(|x| x.map(t))), format!("{:?}", Ok::<_, object::read::Error>(seg.as_ref().map(|x| t(x)))))?;
        w("size", s.size().to_string(), m.size.to_string())?;
        if b.t.fmt != B::Xcoff {
            w("align", s.align().to_string(), m.align.to_string())?;
        }
        match m.flags {
            SectionFlags::None => {
                if let Some(k) = read_kind(&b.t, m) {
                    w("kind", format!("{:?}", s.kind()), format!("{k:?}"))?;
                }
            }
            want => {
                let strip = |f: SectionFlags| match f {
                    // alignment, COMDAT and relocation-overflow bits belong to the writer
                    SectionFlags::Coff { characteristics } => {
                        SectionFlags::Coff { characteristics: object::pe::SectionFlags(characteristics.0 & !0x01f0_1000) }
                    }
                    f => f,
                };
                w("flags", format!("{:?}", strip(s.flags())), format!("{:?}", strip(want)))?;
            }
        }
        let data = match s.data() {
            Ok(d) => d,
            Err(e) => return violation("section-data", format!("{tn}: section {i}: {e}")),
        };
        let want: &[u8] = if m.bss() { &[] } else { &m.data };
        ensure!(
            data.len() == want.len(),
            "section-data",
            "{tn}: section {i} `{}` kind {:?}: {} bytes read, {} described",
            t(&m.name),
            m.kind,
            data.len(),
            want.len()
        );
        for (o, (x, y)) in data.iter().zip(want).enumerate() {
            if x != y && !m.owned.contains(&(o as u64)) {
                return violation("section-data", format!("{tn}: section {i} byte {o:#x} reads {x:#x}, described {y:#x}"));
            }
        }
        // the other ways to get at the same bytes
        if !want.is_empty() {
            let sec_addr = s.address();
            let k = want.len() as u64 / 2;
            let r = s.data_range(sec_addr + k, want.len() as u64 - k);
            ensure!(matches!(r, Ok(Some(x)) if x == &data[k as usize..]), "section-data", "{tn}: section {i}: data_range disagrees");
            ensure!(s.file_range().map(|r| r.1) == Some(want.len() as u64), "section-file-range", "{tn}: section {i}: {:?}", s.file_range());
            let u = s.uncompressed_data();
            let compressed = matches!(u, Err(_));
            ensure!(compressed || u.as_ref().is_ok_and(|u| &u[..] == data || m.name.starts_with(b".zdebug_")), "section-data", "{tn}: section {i}: uncompressed_data disagrees");
        }
    }
    if b.t.fmt == B::MachO {
        macho_header(b, f)?;
    }
    flags(b, f)
}

fn flags<'d, D: ReadRef<'d>>(b: &Builder, f: &File<'d, D>) -> R {
    use object::FileFlags as F;
    let want = match b.m.file_flags {
        Some(x) => x,
        None => return Ok(()),
    };
    let got = f.flags();
    let ok = match (want, got) {
        (F::Elf { os_abi, abi_version, e_flags }, F::Elf { os_abi: o, abi_version: a, e_flags: e }) => {
            os_abi == o && abi_version == a && e.0 & e_flags.0 == e_flags.0
        }
        (F::MachO { flags }, F::MachO { flags: g }) => flags.0 == g.0 & !0x2000,
        (a, b) => a == b,
    };
    ensure!(ok, "file-flags", "{}: file flags read {got:?}, described {want:?}", b.t.name());
    Ok(())
}

fn macho_header<'d, D: ReadRef<'d>>(b: &Builder, f: &File<'d, D>) -> R {
    use object::read::macho::{LoadCommandVariant, MachHeader};
    let tn = b.t.name();
    fn walk<'d, M: MachHeader<Endian = object::Endianness>, D: ReadRef<'d>>(
        m: &object::read::macho::MachOFile<'d, M, D>,
    ) -> (u32, u32, Vec<(u32, u32, u32)>) {
        let e = m.endian();
        let mut v = Vec::new();
        if let Ok(mut cmds) = m.macho_load_commands() {
            while let Ok(Some(c)) = cmds.next() {
                if let Ok(LoadCommandVariant::BuildVersion(x, _)) = c.variant() {
                    v.push((x.platform.get(e).0, x.minos.get(e).0, x.sdk.get(e).0));
                }
            }
        }
        (m.macho_header().cpusubtype(e).0, m.macho_header().flags(e).0, v)
    }
    let (sub, flags, bv) = match f {
        File::MachO32(m) => walk(m),
        File::MachO64(m) => walk(m),
        _ => return violation("format", "not Mach-O"),
    };
    let want: Vec<_> = b.m.build.into_iter().collect();
    ensure!(bv == want, "build-version", "{tn}: build version {bv:x?}, described {want:x?}");
    if let Some(s) = b.m.cpu_subtype {
        ensure!(sub == s, "cpu-subtype", "{tn}: cpu subtype {sub:#x}, described {s:#x}");
    }
    let want = b.m.file_flags.is_some_and(|f| matches!(f, object::FileFlags::MachO { flags } if flags.0 & 0x2000 != 0)) || b.m.subs_via_syms;
    ensure!((flags & 0x2000 != 0) == want, "subsections-via-symbols", "{tn}: header flags {flags:#x}, subsections {want}");
    Ok(())
}

// ---------------------------------------------------------------- symbols

fn place_text(p: Place) -> String {
    match p {
        Place::None => "none".into(),
        Place::Undefined => "undef".into(),
        Place::Absolute => "abs".into(),
        Place::Common => "common".into(),
        Place::Sec(i) => format!("sec{i}"),
    }
}

/// Text that a described symbol must read back as; None if the format does not carry it.
pub fn canon_expected(b: &Builder, i: usize) -> Option<String> {
    let s: &MSym = &b.m.syms[i];
    let tg = &b.t;
    let undef = s.place == Place::Undefined;
    let common = s.place == Place::Common;
    let local = s.scope == SC::Compilation;
    let mut name = s.name.clone();
    let mut place = s.place;
    let mut value = s.value;
    let mut size = s.size;
    let mut kind = s.kind;
    let mut scope = s.scope;
    let mut weak = s.weak;
    if undef || s.place == Place::None && s.kind != SK::File {
        scope = SC::Unknown;
    }
    if !tg.is_64() {
        value &= 0xffff_ffff;
    }
    match tg.fmt {
        B::Elf => {
            if undef && matches!(kind, SK::Text | SK::Data | SK::Unknown) || kind == SK::Label {
                kind = SK::Unknown;
            }
            if common {
                value = 0;
            }
            if let Some(SymbolFlags::Elf { st_info, .. }) = s.flags {
                if st_info.0 & 15 == 10 {
                    kind = SK::Text;
                }
            }
        }
        B::Coff => {
            if kind == SK::Section {
                if let Place::Sec(k) = s.place {
                    size = b.m.secs[k].size;
                }
            } else if !common {
                size = 0;
            }
            if common {
                value = 0;
            }
            if matches!(kind, SK::Tls | SK::Unknown) {
                kind = SK::Data;
            }
            // absolute symbols have no address in the unified interface
            if s.place == Place::Absolute {
                value = 0;
            }
            if s.weak {
                place = Place::None;
                value = 0;
                if kind != SK::Text {
                    kind = SK::Data;
                }
                scope = SC::Linkage;
            } else if local && !undef && !common {
                scope = SC::Compilation;
            } else {
                scope = SC::Linkage;
            }
        }
        B::MachO => {
            match kind {
                SK::File => return None,
                SK::Section => {
                    if !matches!(tg.arch, A::Aarch64 | A::Aarch64_Ilp32) {
                        return None;
                    }
                }
                _ => {
                    kind = match s.place {
                        Place::Sec(k) => match read_kind(tg, &b.m.secs[k]) {
                            _ if b.m.secs[k].flags != SectionFlags::None => SK::Label, // not compared
                            Some(K::Text) => SK::Text,
                            Some(K::Data | K::ReadOnlyData | K::ReadOnlyString | K::UninitializedData) => SK::Data,
                            Some(K::Tls | K::UninitializedTls | K::TlsVariables) => SK::Tls,
                            _ => SK::Unknown,
                        },
                        Place::Common => SK::Data,
                        _ => SK::Unknown,
                    };
                }
            }
            if !common {
                size = 0;
            } else {
                value = 0;
            }
        }
        _ => {
            // XCOFF
            let csect = !local && s.kind != SK::File;
            if !csect && s.kind != SK::File {
                kind = SK::Unknown;
                size = 0;
                weak = false;
            }
            if s.kind == SK::File {
                size = 0;
            }
            if common {
                scope = SC::Unknown;
            }
            if undef || common {
                // a common symbol is an undefined one here; neither has an address
                value = 0;
                place = Place::Undefined;
            }
            if let Some(SymbolFlags::Xcoff { .. }) = s.flags {
                kind = SK::Label; // not compared
            }
        }
    }
    if s.kind == SK::Section {
        scope = SC::Compilation;
        if tg.fmt == B::Elf {
            name = vec![];
        }
    }
    Some(format!(
        "{} {} value={value:#x} size={size} {} {scope:?}{}",
        t(&name),
        place_text(place),
        if kind == SK::Label && tg.fmt != B::Coff { "*".into() } else { format!("{kind:?}") },
        if weak { " weak" } else { "" }
    ))
}

pub fn canon_actual<'d, D: ReadRef<'d>>(b: &Builder, f: &File<'d, D>, map: &Map, idx: usize, kind_any: bool) -> String {
    let s = match f.symbol_by_index(object::SymbolIndex(idx)) {
        Ok(s) => s,
        Err(e) => return format!("no symbol {idx}: {e}"),
    };
    let mut base = 0;
    let place = match s.section() {
        SymbolSection::Section(i) => {
            if b.t.fmt == B::MachO || b.t.fmt == B::Xcoff {
                if let Ok(sec) = f.section_by_index(i) {
                    base = sec.address();
                }
            }
            match map.to_model.get(&i.0) {
                Some(m) => format!("sec{m}"),
                None => format!("file section {}", i.0),
            }
        }
        SymbolSection::Undefined => "undef".into(),
        SymbolSection::Absolute => "abs".into(),
        SymbolSection::Common => "common".into(),
        SymbolSection::None => "none".into(),
        // weak COFF symbols read as unplaced
        SymbolSection::Unknown if b.t.fmt == B::Coff && s.is_weak() => "none".into(),
        x => format!("{x:?}"),
    };
    let mut value = s.address().wrapping_sub(base);
    if s.is_common() || (b.t.fmt == B::Xcoff && s.is_undefined()) || (b.t.fmt == B::Xcoff && place == "undef") {
        value = 0;
    }
    format!(
        "{} {place} value={value:#x} size={} {} {:?}{}",
        s.name_bytes().map(t).unwrap_or_else(|e| format!("?{e}")),
        s.size(),
        if kind_any { "*".into() } else { format!("{:?}", s.kind()) },
        s.scope(),
        if s.is_weak() { " weak" } else { "" }
    )
}

fn kind_any<'d, D: ReadRef<'d>>(b: &Builder, f: &File<'d, D>, map: &Map, idx: usize) -> bool {
    // kinds that depend on explicitly chosen flags are not compared
    let Ok(s) = f.symbol_by_index(object::SymbolIndex(idx)) else { return false };
    if b.t.fmt == B::MachO {
        if let SymbolSection::Section(i) = s.section() {
            if let Some(m) = map.to_model.get(&i.0) {
                return b.m.secs[*m].flags != SectionFlags::None && s.kind() != SK::Section;
            }
        }
    }
    false
}

/// Match described symbols with those read; returns described symbol -> file index.
pub fn symbols<'d, D: ReadRef<'d>>(b: &Builder, f: &File<'d, D>) -> R<BTreeMap<usize, usize>> {
    let map = section_map(b, f)?;
    let tn = b.t.name();
    let any_flags = b.t.fmt == B::Xcoff && b.m.syms.iter().any(|s| s.flags.is_some());
    let mut want: Vec<(String, usize)> = Vec::new();
    for i in 0..b.m.syms.len() {
        if let Some(mut c) = canon_expected(b, i) {
            if any_flags {
                c = drop_kind(&c);
            }
            want.push((c, i));
        }
    }
    let mut got: Vec<(String, usize)> = Vec::new();
    let mut weak_defaults = Vec::new();
    for s in f.symbols() {
        let i = s.index().0;
        let mut c = canon_actual(b, f, &map, i, kind_any(b, f, &map, i));
        if any_flags {
            c = drop_kind(&c);
        }
        if b.t.fmt == B::Coff && s.name_bytes().is_ok_and(|n| n.starts_with(b".weak.")) {
            weak_defaults.push(i);
            continue;
        }
        got.push((c, i));
    }
    want.sort();
    got.sort();
    let mut assign = BTreeMap::new();
    let (mut x, mut y) = (0, 0);
    while x < want.len() || y < got.len() {
        match (want.get(x), got.get(y)) {
            (Some(a), Some(g)) if a.0 == g.0 => {
                assign.insert(a.1, g.1);
                x += 1;
                y += 1;
            }
            (Some(a), g) if g.is_none() || a.0 < g.unwrap().0 => {
                // show the closest candidate
                let near = got.iter().find(|c| c.0.split(' ').next() == a.0.split(' ').next()).map(|c| c.0.clone());
                return violation(
                    "symbol-missing",
                    format!("{tn}: described symbol [{}] not in the file; same name there: {near:?}", a.0),
                );
            }
            (_, Some(g)) => {
                let near = want.iter().find(|c| c.0.split(' ').next() == g.0.split(' ').next()).map(|c| c.0.clone());
                return violation("symbol-extra", format!("{tn}: symbol [{}] in the file was not described; same name: {near:?}", g.0));
            }
            _ => unreachable!(),
        }
    }
    weak(b, f, &map, &assign, &weak_defaults)?;
    for (i, s) in b.m.syms.iter().enumerate() {
        let Some(&fi) = assign.get(&i) else { continue };
        let r = f.symbol_by_index(object::SymbolIndex(fi)).unwrap();
        if let Some(want) = s.flags {
            // identical symbols may be swapped; only unique ones are compared exactly
            let uniq = want_unique(b, i);
            let got = r.flags();
            let same = match (want, got) {
                (SymbolFlags::Elf { st_info, st_other }, SymbolFlags::Elf { st_info: a, st_other: o }) => st_info == a && st_other == o,
                (SymbolFlags::MachO { n_type, n_desc }, SymbolFlags::MachO { n_type: a, n_desc: d }) => n_type == a && n_desc == d,
                (SymbolFlags::Coff { typ, storage_class }, SymbolFlags::Coff { typ: a, storage_class: s }) => typ == a && storage_class == s,
                (
                    SymbolFlags::Xcoff { n_type, n_sclass, x_smtyp, x_smclas, .. },
                    SymbolFlags::Xcoff { n_type: a, n_sclass: s, x_smtyp: ty, x_smclas: cl, .. },
                ) => n_type == a && n_sclass == s && (s.0 == 3 || (x_smtyp == ty && x_smclas == cl)),
                _ => false,
            };
            ensure!(same || !uniq, "symbol-flags", "{tn}: symbol `{}` flags read {got:?}, described {want:?}", t(&s.name));
        }
        if s.kind == SK::File || s.kind == SK::Section {
            continue;
        }
        // binding and definition predicates follow the description
        // (a weak COFF symbol is an external one whatever its scope)
        let local = s.scope == SC::Compilation && !(b.t.fmt == B::Coff && s.weak);
        ensure!(
            r.is_local() == local && r.is_global() != local,
            "symbol-binding",
            "{tn}: symbol `{}` scope {:?}: is_local {} is_global {}",
            t(&s.name), s.scope, r.is_local(), r.is_global()
        );
        // Documented difference: XCOFF has no way to tell them apart; a weak COFF symbol has no place of its own.
        if b.t.fmt == B::Elf || (b.t.fmt == B::MachO) || (b.t.fmt == B::Coff && !s.weak) {
            ensure!(
                r.is_undefined() == (s.place == Place::Undefined),
                "symbol-undefined",
                "{tn}: symbol `{}` place {:?}: is_undefined {}",
                t(&s.name), s.place, r.is_undefined()
            );
            ensure!(
                r.is_common() == (s.place == Place::Common),
                "symbol-common",
                "{tn}: symbol `{}` place {:?}: is_common {}",
                t(&s.name), s.place, r.is_common()
            );
        }
        if s.place == Place::Common && b.t.fmt == B::MachO {
            if let SymbolFlags::MachO { n_desc, .. } = r.flags() {
                let a = 1u64 << ((n_desc.0 >> 8) & 15);
                ensure!(a == s.value.clamp(1, 1 << 15), "common-align", "{tn}: common `{}` alignment {a}, described {}", t(&s.name), s.value);
            }
        }
        if b.t.fmt == B::MachO && s.flags.is_none() && !matches!(s.place, Place::Sec(_)) {
            let n = match f {
                File::MachO32(m) => m.macho_symbol_table().symbol(object::SymbolIndex(fi)).ok().map(|y| y.n_sect),
                File::MachO64(m) => m.macho_symbol_table().symbol(object::SymbolIndex(fi)).ok().map(|y| y.n_sect),
                _ => None,
            };
            ensure!(n == Some(0), "symbol-no-section", "{tn}: symbol `{}` place {:?}: n_sect {n:?}", t(&s.name), s.place);
        }
        if s.place == Place::Common && b.t.fmt == B::Elf {
            let v = match f {
                File::Elf32(e) => elf_value(e, fi),
                File::Elf64(e) => elf_value(e, fi),
                _ => None,
            };
            ensure!(v == Some(s.value), "common-align", "{tn}: common `{}` alignment {v:?}, described {}", t(&s.name), s.value);
        }
        if s.place == Place::Absolute && b.t.fmt == B::Coff && !s.weak {
            if let File::Coff(c) = f {
                use object::read::coff::Symbol as _;
                let v = c.coff_symbol_table().symbol(object::SymbolIndex(fi)).map(|x| x.value() as u64);
                ensure!(v == Ok(s.value & 0xffff_ffff), "symbol-value", "{tn}: absolute `{}` value {v:?}, described {:#x}", t(&s.name), s.value);
            }
        }
    }
    comdats(b, f, &map, &assign)?;
    Ok(assign)
}

fn elf_value<'d, H: object::read::elf::FileHeader<Endian = object::Endianness>, D: ReadRef<'d>>(
    e: &object::read::elf::ElfFile<'d, H, D>, i: usize,
) -> Option<u64> {
    use object::read::elf::Sym;
    let s = e.elf_symbol_table().symbol(object::SymbolIndex(i)).ok()?;
    Some(s.st_value(e.endian()).into())
}

fn drop_kind(c: &str) -> String {
    let mut v: Vec<&str> = c.split(' ').collect();
    for i in 0..v.len() {
        if v[i].starts_with("size=") && i + 1 < v.len() {
            v[i + 1] = "*";
            v[i] = "size=*";
        }
    }
    v.join(" ")
}

fn want_unique(b: &Builder, i: usize) -> bool {
    let c = canon_expected(b, i);
    (0..b.m.syms.len()).filter(|j| b.m.syms[*j].name == b.m.syms[i].name && canon_expected(b, *j) == c).count() == 1
}

/// COFF weak externals: the fallback definition carries value and section.
fn weak<'d, D: ReadRef<'d>>(b: &Builder, f: &File<'d, D>, map: &Map, assign: &BTreeMap<usize, usize>, defaults: &[usize]) -> R {
    let File::Coff(c) = f else {
        return Ok(());
    };
    use object::read::coff::Symbol as _;
    let tn = b.t.name();
    let mut n = 0;
    for (i, s) in b.m.syms.iter().enumerate() {
        if !s.weak {
            continue;
        }
        n += 1;
        if (0..b.m.syms.len()).any(|j| j != i && b.m.syms[j].name == s.name && b.m.syms[j].weak) {
            continue;
        }
        let fi = *assign.get(&i).unwrap();
        let aux = match c.coff_symbol_table().aux_weak_external(object::SymbolIndex(fi)) {
            Ok(a) => a,
            Err(e) => return violation("weak-default", format!("{tn}: weak `{}`: {e}", t(&s.name))),
        };
        let di = aux.default_symbol();
        ensure!(defaults.contains(&di.0), "weak-default", "{tn}: weak `{}` default symbol index {}", t(&s.name), di.0);
        let d = c.coff_symbol_table().symbol(di).unwrap();
        let want = match s.place {
            Place::Sec(k) => map.to_file[k] as i32,
            _ => -1,
        };
        ensure!(
            d.section_number().0 == want && d.value() as u64 == s.value,
            "weak-default",
            "{tn}: weak `{}` default in section {} value {:#x}, described section {want} value {:#x}",
            t(&s.name), d.section_number().0, d.value(), s.value
        );
    }
    ensure!(n == defaults.len(), "weak-default", "{tn}: {} weak symbols, {} defaults", n, defaults.len());
    Ok(())
}

fn comdats<'d, D: ReadRef<'d>>(b: &Builder, f: &File<'d, D>, map: &Map, assign: &BTreeMap<usize, usize>) -> R {
    if !matches!(b.t.fmt, B::Elf | B::Coff) {
        return Ok(());
    }
    let tn = b.t.name();
    let mut got: Vec<String> = Vec::new();
    for c in f.comdats() {
        let mut members: Vec<String> =
            c.sections().map(|s| map.to_model.get(&s.0).map(|m| m.to_string()).unwrap_or(format!("file section {}", s.0))).collect();
        if b.t.fmt == B::Coff {
            members.sort();
        }
        got.push(format!("{:?} key [{}] members {members:?}", c.kind(), canon_actual(b, f, map, c.symbol().0, false)));
        let n = c.name_bytes().map(|x| x.to_vec());
        let sym = f.symbol_by_index(c.symbol()).and_then(|s| s.name_bytes().map(|x| x.to_vec()));
        ensure!(n == sym, "comdat-name", "{tn}: comdat name {n:?} symbol name {sym:?}");
    }
    let mut want: Vec<String> = Vec::new();
    for c in &b.m.comdats {
        let mut secs = c.secs.clone();
        if b.t.fmt == B::Coff {
            // reported as the defining section followed by the associated ones in file order
            let first = secs.remove(0);
            secs.sort();
            secs.insert(0, first);
        }
        let mut members: Vec<String> = secs.iter().map(|s| s.to_string()).collect();
        if b.t.fmt == B::Coff {
            // a COFF group is a set
            members.sort();
        }
        let kind = if b.t.fmt == B::Elf { ComdatKind::Any } else { c.kind };
        let fi = assign.get(&c.sym).copied();
        let key = fi.map(|i| canon_actual(b, f, map, i, false)).unwrap_or_default();
        want.push(format!("{kind:?} key [{key}] members {members:?}"));
    }
    if b.t.fmt == B::Coff {
        want.sort();
        got.sort();
    }
    ensure!(got == want, "comdat", "{tn}: groups read {got:?}, described {want:?}");
    Ok(())
}

// ---------------------------------------------------------------- relocations

pub fn relocations<'d, D: ReadRef<'d>>(b: &Builder, f: &File<'d, D>) -> R<u64> {
    let map = section_map(b, f)?;
    let assign = symbols(b, f)?;
    let tn = b.t.name();
    let mut n = 0;
    let canon_m = |i: usize| match assign.get(&i) {
        Some(fi) => canon_actual(b, f, &map, *fi, false),
        None => format!("symbol {i} not emitted"),
    };
    let canon_f = |i: usize| canon_actual(b, f, &map, i, false);
    let sec_f = |i: usize| match map.to_model.get(&i) {
        Some(m) => format!("section {m}"),
        None => format!("file section {i}"),
    };
    for (i, m) in b.m.secs.iter().enumerate() {
        let s = f.section_by_index(object::SectionIndex(map.to_file[i])).unwrap();
        let data = s.data().unwrap_or(&[]);
        // the addend of a place that lies past the data there was is whatever comes to be there
        let past: BTreeSet<u64> = m.relocs.iter().filter(|r| r.past).map(|r| r.offset).collect();
        let cut = |o: u64, s: String| if past.contains(&o) { no_addend(&s) } else { s };
        let mut want: Vec<String> = m.relocs.iter().map(|r| cut(r.offset, relocs::canon_expected(b, r, &canon_m))).collect();
        n += want.len() as u64;
        let rel: Vec<(u64, object::read::Relocation)> = s.relocations().collect();
        // the relocation entries of XCOFF files hold addresses, not offsets
        let raw: Option<Vec<u64>> = match f {
            File::Xcoff32(x) => raw_places(x, map.to_file[i]),
            File::Xcoff64(x) => raw_places(x, map.to_file[i]),
            _ => None,
        };
        if let Some(raw) = raw {
            let places: Vec<u64> = rel.iter().map(|r| r.0.wrapping_add(s.address())).collect();
            ensure!(raw == places, "relocation-place", "{tn}: section {i} at {:#x}: the addresses of the relocations are {raw:x?}, described {places:x?}", s.address());
        }
        ensure!(rel.len() == want.len(), "relocation-count", "{tn}: section {i}: {} relocations read, {} described", rel.len(), want.len());
        // which of them were described by their format-specific type
        let mut typed: BTreeMap<u64, bool> = BTreeMap::new();
        for r in &m.relocs {
            typed.insert(r.offset, !matches!(r.flags, RelocationFlags::Generic { .. }));
        }
        let mut got: Vec<String> = rel
            .iter()
            .map(|(o, r)| cut(*o, relocs::canon_actual(b, *o, r, typed.get(o).copied().unwrap_or(false), data, &canon_f, &sec_f)))
            .collect();
        if b.t.fmt == B::MachO {
            want.sort();
            got.sort();
        }
        for (w, g) in want.iter().zip(&got) {
            ensure!(w == g, "relocation", "{tn}: section {i}: relocation reads {g}, described {w}");
        }
    }
    Ok(n)
}

fn raw_places<'d, X: object::read::xcoff::FileHeader, D: ReadRef<'d>>(x: &object::read::xcoff::XcoffFile<'d, X, D>, i: usize) -> Option<Vec<u64>> {
    use object::read::xcoff::{Rel as _, SectionHeader as _};
    let s = x.xcoff_section_table().section(object::SectionIndex(i)).ok()?;
    Some(s.relocations(x.data()).ok()?.iter().map(|r| r.r_vaddr().into()).collect())
}

fn no_addend(s: &str) -> String {
    match s.rfind(" addend ") {
        Some(i) => {
            let rest = &s[i + 8..];
            let e = rest.find(' ').unwrap_or(rest.len());
            format!("{}{}", &s[..i], &rest[e..])
        }
        None => s.to_string(),
    }
}
