//! Observation of a file through the unified read interface, split into independent queries.
use crate::choices::fnv;
use object::read::*;
use std::fmt::{Debug, Display};

#[derive(Default)]
pub struct Obs {
    pub out: Vec<(String, String)>,
    pub prefix: String,
    /// upper bound on items of one enumeration; exceeding it is an endless enumeration
    pub cap: usize,
    pub overrun: Option<String>,
}

impl Obs {
    pub fn new(data_len: usize) -> Self {
        Obs { out: Vec::new(), prefix: String::new(), cap: 20_000 + data_len * 8, overrun: None }
    }
    pub fn put(&mut self, key: impl Display, val: impl Into<String>) {
        let k = if self.prefix.is_empty() { key.to_string() } else { format!("{}{}", self.prefix, key) };
        self.out.push((k, val.into()));
    }
    pub fn dbg(&mut self, key: impl Display, val: impl Debug) {
        self.put(key, format!("{val:?}"));
    }
    pub fn res<T>(&mut self, key: impl Display, r: Result<T>, f: impl FnOnce(T) -> String) -> bool {
        match r {
            Ok(v) => {
                self.put(key, f(v));
                true
            }
            Err(_) => {
                self.put(key, ERR);
                false
            }
        }
    }
    pub fn over(&mut self, n: usize, what: &str) -> bool {
        if n > self.cap {
            self.overrun.get_or_insert_with(|| format!("{}{what}: more than {n} items", self.prefix));
            true
        } else {
            false
        }
    }
    /// After an error, an enumeration still comes to an end.
    pub fn ends(&mut self, what: &str, mut next: impl FnMut() -> Result<bool>) {
        let mut n = 0;
        while !matches!(next(), Ok(false)) {
            n += 1;
            if self.over(n, what) {
                return;
            }
        }
    }
    pub fn scope<T>(&mut self, p: impl Display, f: impl FnOnce(&mut Obs) -> T) -> T {
        let old = self.prefix.clone();
        self.prefix = format!("{old}{p}");
        let r = f(self);
        self.prefix = old;
        r
    }
}

pub const ERR: &str = "!";
pub const NONE: &str = "~";

pub fn hex(b: &[u8]) -> String {
    if b.len() <= 40 {
        let mut s = format!("{}:", b.len());
        for x in b {
            s.push_str(&format!("{x:02x}"));
        }
        s
    } else {
        format!("{}#{:016x}", b.len(), fnv(b))
    }
}
pub fn txt(b: &[u8]) -> String {
    if b.len() <= 80 {
        b.escape_ascii().to_string()
    } else {
        format!("{}..#{}:{:016x}", b[..60].escape_ascii(), b.len(), fnv(b))
    }
}
pub fn rb(r: Result<&[u8]>) -> String {
    r.map(txt).unwrap_or_else(|_| ERR.into())
}
pub fn opt<T>(o: Option<T>, f: impl FnOnce(T) -> String) -> String {
    o.map(f).unwrap_or_else(|| NONE.into())
}

pub fn reloc(r: &Relocation) -> String {
    let t = match r.target() {
        RelocationTarget::Symbol(s) => format!("sym{}", s.0),
        RelocationTarget::Section(s) => format!("sec{}", s.0),
        RelocationTarget::Absolute => "abs".into(),
        _ => "?".into(),
    };
    format!(
        "{:?} {:?} {} {} sub={:?} add={} imp={} {}",
        r.kind(), r.encoding(), r.size(), t, r.subtractor().map(|s| s.0), r.addend(), r.has_implicit_addend(), rflags(r.flags())
    )
}
pub fn rflags(f: object::RelocationFlags) -> String {
    use object::RelocationFlags as F;
    match f {
        F::Generic { .. } => "generic".into(),
        F::Elf { r_type } => format!("elf:{:#x}", r_type.0),
        F::MachO { r_type, r_pcrel, r_length } => format!("macho:{}:{}:{}", r_type.0, r_pcrel, r_length),
        F::Coff { typ } => format!("coff:{:#x}", typ.0),
        F::Xcoff { r_rtype, r_rsize } => format!("xcoff:{}:{:#x}", r_rtype.0, r_rsize),
        f => format!("{f:?}"),
    }
}
pub fn scflags(f: object::SectionFlags) -> String {
    use object::SectionFlags as F;
    match f {
        F::None => "none".into(),
        F::Elf { sh_type, sh_flags } => format!("elf:{:#x}:{:#x}", sh_type.0, sh_flags.0),
        F::MachO { flags, reserved2 } => format!("macho:{:#x}:{}", flags.0, reserved2),
        F::Coff { characteristics } => format!("coff:{:#x}", characteristics.0),
        F::Xcoff { s_flags } => format!("xcoff:{:#x}", s_flags.0),
        f => format!("{f:?}"),
    }
}
pub fn syflags(f: object::SymbolFlags<SectionIndex, SymbolIndex>) -> String {
    use object::SymbolFlags as F;
    match f {
        F::None => "none".into(),
        F::Elf { st_info, st_other } => format!("elf:{:#x}:{:#x}", st_info.0, st_other.0),
        F::MachO { n_type, n_desc } => format!("macho:{:#x}:{:#x}", n_type.0, n_desc.0),
        F::Coff { typ, storage_class } => format!("coff:{:#x}:{}", typ.0, storage_class.0),
        F::CoffSection { typ, storage_class, selection, associative_section } => {
            format!("coffsec:{:#x}:{}:{}:{:?}", typ.0, storage_class.0, selection.0, associative_section.map(|s| s.0))
        }
        F::Xcoff { n_type, n_sclass, x_smtyp, x_smclas, containing_csect } => {
            format!("xcoff:{:#x}:{}:{}:{}:{:?}", n_type.0, n_sclass.0, x_smtyp.0, x_smclas.0, containing_csect.map(|s| s.0))
        }
        f => format!("{f:?}"),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Q {
    Header,
    Segments,
    Section(usize),
    SectionData(usize),
    SectionRelocs(usize),
    SectionByName(usize),
    Symbols(usize),
    SymbolByIndex(usize),
    DynSymbols,
    Comdats,
    DynRelocs,
    Libraries,
    Imports,
    Exports,
    SymbolMap,
    ObjectMap,
    Debug,
    Special(usize),
}

pub const SYM_CHUNK: usize = 64;
pub const SPECIALS: usize = 12;

/// All queries for a file, given its number of sections and symbols.
pub fn plan<'d, O: Object<'d>>(o: &O, sections_cap: usize) -> Vec<Q> {
    let mut v = vec![Q::Header, Q::Segments, Q::DynSymbols, Q::Comdats, Q::DynRelocs, Q::Libraries, Q::Imports, Q::Exports,
        Q::SymbolMap, Q::ObjectMap, Q::Debug];
    for (n, s) in o.sections().enumerate() {
        if n >= sections_cap {
            break;
        }
        // custom sections of Wasm files share an index
        let i = if matches!(o.architecture(), object::Architecture::Wasm32 | object::Architecture::Wasm64) { n } else { s.index().0 };
        v.push(Q::Section(i));
        v.push(Q::SectionData(i));
        v.push(Q::SectionRelocs(i));
        v.push(Q::SectionByName(i));
    }
    let n = o.symbols().take(100_000).count();
    for c in 0..=(n / SYM_CHUNK) {
        v.push(Q::Symbols(c));
    }
    if n > 0 {
        v.push(Q::SymbolByIndex(n / 2));
    }
    for k in 0..SPECIALS {
        v.push(Q::Special(k));
    }
    v
}

fn perms(p: object::Permissions) -> String {
    format!("{}{}{}", if p.readable() { "r" } else { "-" }, if p.writable() { "w" } else { "-" }, if p.executable() { "x" } else { "-" })
}

pub fn section_info<'d, S: ObjectSection<'d>>(s: &S, obs: &mut Obs) {
    let i = s.index().0;
    obs.scope(format!("sec[{i}]."), |obs| {
        obs.put("name", rb(s.name_bytes()));
        obs.put("name_str", s.name().map(|n| txt(n.as_bytes())).unwrap_or_else(|_| ERR.into()));
        obs.put("segname", match s.segment_name_bytes() {
            Ok(Some(n)) => txt(n),
            Ok(None) => NONE.into(),
            Err(_) => ERR.into(),
        });
        obs.put("segname_str", match s.segment_name() {
            Ok(Some(n)) => txt(n.as_bytes()),
            Ok(None) => NONE.into(),
            Err(_) => ERR.into(),
        });
        obs.put("addr", format!("{:#x}", s.address()));
        obs.put("size", format!("{:#x}", s.size()));
        obs.put("align", format!("{:#x}", s.align()));
        obs.put("kind", format!("{:?}", s.kind()));
        obs.put("flags", scflags(s.flags()));
        obs.put("file_range", opt(s.file_range(), |(a, b)| format!("{a:#x}+{b:#x}")));
    });
}

pub fn section_data<'d, S: ObjectSection<'d>>(s: &S, obs: &mut Obs) {
    let i = s.index().0;
    obs.scope(format!("sec[{i}]."), |obs| {
        obs.res("data", s.data(), hex);
        obs.put("@gnu", s.name_bytes().is_ok_and(|n| n.starts_with(b".zdebug_") || n.starts_with(b"__zdebug_")).to_string());
        let a = s.address();
        let z = s.size();
        for (k, (addr, size)) in [(a, z), (a, 4), (a.wrapping_add(z / 2), 1), (a.wrapping_add(z), 1), (a.wrapping_sub(1), 2), (a, z.wrapping_add(1))]
            .into_iter().enumerate()
        {
            obs.put(format!("range{k}"), match s.data_range(addr, size) {
                Ok(Some(d)) => hex(d),
                Ok(None) => NONE.into(),
                Err(_) => ERR.into(),
            });
        }
        obs.res("cfr", s.compressed_file_range(), |c| {
            format!("{:?} {:#x}+{:#x} -> {:#x}", c.format, c.offset, c.compressed_size, c.uncompressed_size)
        });
        obs.res("cdata", s.compressed_data(), |c| format!("{:?} {} -> {:#x}", c.format, hex(c.data), c.uncompressed_size));
        obs.res("udata", s.uncompressed_data(), |d| hex(&d));
    });
}

pub fn section_relocs<'d, S: ObjectSection<'d>>(s: &S, obs: &mut Obs) {
    let i = s.index().0;
    obs.scope(format!("sec[{i}].reloc"), |obs| {
        let mut offs = Vec::new();
        for (n, (off, r)) in s.relocations().enumerate() {
            obs.put(format!("[{n}]"), format!("{off:#x} {}", reloc(&r)));
            offs.push(off);
            if obs.over(n, "relocations") {
                break;
            }
        }
        obs.res("map", s.relocation_map(), |m| {
            let mut h = 0u64;
            for o in offs.iter().take(500) {
                h = h.rotate_left(7) ^ m.relocate(*o, 0x1234) ^ m.relocate(o ^ 1, 0x77);
            }
            format!("{h:016x}")
        });
    });
}

pub fn symbol_info<'d, S: ObjectSymbol<'d>>(s: &S, key: &str, obs: &mut Obs) {
    let i = s.index().0;
    obs.scope(format!("{key}[{i}]."), |obs| {
        obs.put("name", rb(s.name_bytes()));
        let sec = match s.section() {
            SymbolSection::Section(i) => format!("sec{}", i.0),
            o => format!("{o:?}"),
        };
        obs.put("val", format!("{:#x} size {:#x} in {}", s.address(), s.size(), sec));
        // the kind may depend on the name of the symbol or of its section
        obs.put("@kind", format!("{:?} {}", s.kind(), s.is_definition()));
        obs.put("attr", format!(
            "{} {} {} {:?} {} {} idx={:?}",
            s.is_undefined(), s.is_common(), s.is_weak(), s.scope(), s.is_global(), s.is_local(), s.section_index().map(|s| s.0)
        ));
        obs.put("flags", syflags(s.flags()));
        obs.put("name_str", s.name().map(|n| txt(n.as_bytes())).unwrap_or_else(|_| ERR.into()));
    });
}

fn noo(n: NameOrOrdinal<&[u8]>) -> String {
    match n {
        NameOrOrdinal::Name(n) => txt(n),
        NameOrOrdinal::Ordinal(o) => format!("@{o}"),
    }
}

fn section_at<'d, 'f, O: Object<'d>>(o: &'f O, i: usize) -> Result<O::Section<'f>> {
    if matches!(o.architecture(), object::Architecture::Wasm32 | object::Architecture::Wasm64) {
        return o.sections().nth(i).ok_or_else(|| o.section_by_index(SectionIndex(usize::MAX)).err().unwrap());
    }
    o.section_by_index(SectionIndex(i))
}

pub fn query<'d, O: Object<'d>>(o: &O, q: Q, obs: &mut Obs) {
    match q {
        Q::Header => {
            obs.put("arch", format!("{:?} {:?}", o.architecture(), o.sub_architecture()));
            obs.put("endian", format!("{:?} {} {}", o.endianness(), o.is_little_endian(), o.is_64()));
            obs.put("kind", format!("{:?}", o.kind()));
            obs.put("entry", format!("{:#x}", o.entry()));
            obs.put("base", format!("{:#x}", o.relative_address_base()));
            use object::FileFlags as F;
            obs.put("fflags", match o.flags() {
                F::None => "none".to_string(),
                F::Elf { os_abi, abi_version, e_flags } => format!("elf:{}:{}:{:#x}", os_abi.0, abi_version, e_flags.0),
                F::MachO { flags } => format!("macho:{:#x}", flags.0),
                F::Coff { characteristics } => format!("coff:{:#x}", characteristics.0),
                F::Xcoff { f_flags } => format!("xcoff:{:#x}", f_flags.0),
                f => format!("{f:?}"),
            });
            obs.put("@has_debug", format!("{}", o.has_debug_symbols()));
        }
        Q::Segments => {
            for (n, s) in o.segments().enumerate() {
                obs.scope(format!("seg[{n}]."), |obs| {
                    use object::SegmentFlags as F;
                    obs.put("range", format!("{:#x}+{:#x} align {:#x} file {:#x?} {}", s.address(), s.size(), s.align(), s.file_range(), perms(s.permissions())));
                    obs.put("flags", match s.flags() {
                        F::None => "none".to_string(),
                        F::Elf { p_type, p_flags } => format!("elf:{:#x}:{:#x}", p_type.0, p_flags.0),
                        F::MachO { flags, maxprot, initprot } => format!("macho:{:#x}:{:#x}:{:#x}", flags.0, maxprot.0, initprot.0),
                        F::Coff { characteristics } => format!("coff:{:#x}", characteristics.0),
                        f => format!("{f:?}"),
                    });
                    obs.put("name", match s.name_bytes() {
                        Ok(Some(n)) => txt(n),
                        Ok(None) => NONE.into(),
                        Err(_) => ERR.into(),
                    });
                    obs.put("name_str", match s.name() {
                        Ok(Some(n)) => txt(n.as_bytes()),
                        Ok(None) => NONE.into(),
                        Err(_) => ERR.into(),
                    });
                    obs.res("data", s.data(), hex);
                    let (a, z) = (s.address(), s.size());
                    for (k, (addr, size)) in [(a, 4), (a.wrapping_add(z / 3), 5), (a.wrapping_add(z), 1), (a.wrapping_sub(1), 4)].into_iter().enumerate() {
                        obs.put(format!("range{k}"), match s.data_range(addr, size) {
                            Ok(Some(d)) => hex(d),
                            Ok(None) => NONE.into(),
                            Err(_) => ERR.into(),
                        });
                    }
                });
                if obs.over(n, "segments") {
                    break;
                }
            }
        }
        Q::Section(i) => match section_at(o, i) {
            Ok(s) => section_info(&s, obs),
            Err(_) => obs.put(format!("sec[{i}]"), ERR),
        },
        Q::SectionData(i) => {
            if let Ok(s) = section_at(o, i) {
                section_data(&s, obs)
            }
        }
        Q::SectionRelocs(i) => {
            if let Ok(s) = section_at(o, i) {
                section_relocs(&s, obs)
            }
        }
        Q::SectionByName(i) => {
            if let Ok(s) = section_at(o, i) {
                if let Ok(n) = s.name_bytes() {
                    obs.put(format!("sec[{i}].@by_name"), opt(o.section_by_name_bytes(n), |s| format!("{}", s.index().0)));
                }
                if let Ok(n) = s.name() {
                    obs.put(format!("sec[{i}].@by_name_str"), opt(o.section_by_name(n), |s| format!("{}", s.index().0)));
                    if let Some(t) = n.strip_prefix(".z") {
                        obs.put(format!("sec[{i}].@by_name_z"), opt(o.section_by_name(&format!(".{t}")), |s| format!("{}", s.index().0)));
                    }
                }
            }
        }
        Q::Symbols(c) => {
            for (n, s) in o.symbols().enumerate().skip(c * SYM_CHUNK).take(SYM_CHUNK) {
                symbol_info(&s, "sym", obs);
                if obs.over(n, "symbols") {
                    break;
                }
            }
        }
        Q::SymbolByIndex(k) => {
            if let Some(s) = o.symbols().nth(k) {
                match o.symbol_by_index(s.index()) {
                    Ok(t) => symbol_info(&t, "symi", obs),
                    Err(_) => obs.put("symi", ERR),
                }
                if let Ok(n) = s.name_bytes() {
                    obs.put("@symn", opt(o.symbol_by_name_bytes(n), |s| format!("{}", s.index().0)));
                }
                if let Ok(n) = s.name() {
                    obs.put("@symns", opt(o.symbol_by_name(n), |s| format!("{}", s.index().0)));
                }
            }
            obs.put("symtab", opt(o.symbol_table(), |t| format!("{}", t.symbols().take(100_000).count())));
        }
        Q::DynSymbols => {
            for (n, s) in o.dynamic_symbols().enumerate() {
                symbol_info(&s, "dsym", obs);
                if obs.over(n, "dynamic symbols") {
                    break;
                }
            }
            if let Some(t) = o.dynamic_symbol_table() {
                obs.put("dsymtab", format!("{}", t.symbols().take(100_000).count()));
                obs.put("dsym1", match t.symbol_by_index(SymbolIndex(1)) {
                    Ok(s) => rb(s.name_bytes()),
                    Err(_) => ERR.into(),
                });
            } else {
                obs.put("dsymtab", NONE);
            }
        }
        Q::Comdats => {
            for (n, c) in o.comdats().enumerate() {
                let id = format!("sym{} {}", c.symbol().0, rb(c.name_bytes()));
                obs.put(format!("comdat[{n}]"), format!("{:?} {id}", c.kind()));
                obs.put(format!("comdats[{n}]"), format!("{id} {}", c.name().map(|n| txt(n.as_bytes())).unwrap_or_else(|_| ERR.into())));
                for (k, s) in c.sections().enumerate() {
                    obs.put(format!("comdatsec[{n}:{k}]"), format!("{id}: {}", s.0));
                    if obs.over(k, "comdat sections") {
                        break;
                    }
                }
                if obs.over(n, "comdats") {
                    break;
                }
            }
        }
        Q::DynRelocs => {
            if let Some(it) = o.dynamic_relocations() {
                for (n, (off, r)) in it.enumerate() {
                    obs.put(format!("dynrel[{n}]"), format!("{off:#x} {}", reloc(&r)));
                    if obs.over(n, "dynamic relocations") {
                        break;
                    }
                }
            }
        }
        Q::Libraries => match o.import_libraries() {
            Ok(it) => {
                for (n, l) in it.enumerate() {
                    obs.put(format!("lib[{n}]"), match l {
                        Ok(l) => format!("{} {:?}", txt(l.name()), l.flags()),
                        Err(_) => ERR.into(),
                    });
                    if obs.over(n, "libraries") {
                        break;
                    }
                }
            }
            Err(_) => obs.put("libs", ERR),
        },
        Q::Imports => match o.imports() {
            Ok(it) => {
                for (n, l) in it.enumerate() {
                    obs.put(format!("import[{n}]"), match l {
                        Ok(l) => format!("{} / {} weak={} {:?}", txt(l.library()), noo(l.name()), l.is_weak(), l.flags()),
                        Err(_) => ERR.into(),
                    });
                    if obs.over(n, "imports") {
                        break;
                    }
                }
            }
            Err(_) => obs.put("imports", ERR),
        },
        Q::Exports => match o.exports() {
            Ok(it) => {
                for (n, l) in it.enumerate() {
                    obs.put(format!("export[{n}]"), match l {
                        Ok(l) => format!("{} -> {:?} weak={} {:?}", noo(l.name()), l.target(), l.is_weak(), l.flags()),
                        Err(_) => ERR.into(),
                    });
                    if obs.over(n, "exports") {
                        break;
                    }
                }
            }
            Err(_) => obs.put("exports", ERR),
        },
        Q::SymbolMap => {
            let m = o.symbol_map();
            for (n, s) in m.symbols().iter().enumerate().take(2000) {
                obs.put(format!("smap[{n}]"), format!("{:#x} {}", s.address(), txt(s.name().as_bytes())));
                obs.put(format!("smap@[{n}]size"), format!("{:#x}", s.size()));
            }
            // which symbols the map uses may depend on several of them: these are all there are
            for (n, s) in o.symbols().chain(o.dynamic_symbols()).enumerate().take(4000) {
                if let Ok(t) = s.name() {
                    obs.put(format!("smap[s{n}]"), format!("{:#x} {}", s.address(), txt(t.as_bytes())));
                }
            }
            for (n, s) in m.symbols().iter().enumerate().take(40) {
                for a in [s.address(), s.address().wrapping_add(1), s.address().wrapping_sub(1), s.address().wrapping_add(s.size())] {
                    obs.put(format!("smap@{n}:{a:#x}"), format!(
                        "{} {} {}",
                        opt(m.get(a), |s| txt(s.name().as_bytes())),
                        opt(m.before(a), |s| txt(s.name().as_bytes())),
                        opt(m.containing(a), |s| txt(s.name().as_bytes()))
                    ));
                }
            }
        }
        Q::ObjectMap => {
            let m = o.object_map();
            for (n, f) in m.objects().iter().enumerate().take(2000) {
                obs.put(format!("omapf[{n}]"), format!("{} {}", txt(f.path()), opt(f.member(), txt)));
            }
            for (n, s) in m.symbols().iter().enumerate().take(2000) {
                obs.put(format!("omap[{n}]"), format!("{:#x} {} in {}", s.address(), txt(s.name()), txt(s.object(&m).path())));
                obs.put(format!("omap@[{n}]size"), format!("{:#x}", s.size()));
            }
            for s in m.symbols().iter().take(20) {
                for a in [s.address(), s.address().wrapping_add(s.size()), s.address().wrapping_sub(1)] {
                    obs.put(format!("omap@{a:#x}"), opt(m.get(a), |s| txt(s.name())));
                }
            }
        }
        Q::Debug => {
            obs.put("uuid", match o.mach_uuid() {
                Ok(Some(u)) => hex(&u),
                Ok(None) => NONE.into(),
                Err(_) => ERR.into(),
            });
            obs.put("build_id", match o.build_id() {
                Ok(Some(u)) => hex(u),
                Ok(None) => NONE.into(),
                Err(_) => ERR.into(),
            });
            obs.put("debuglink", match o.gnu_debuglink() {
                Ok(Some((n, c))) => format!("{} {c:#x}", txt(n)),
                Ok(None) => NONE.into(),
                Err(_) => ERR.into(),
            });
            obs.put("debugaltlink", match o.gnu_debugaltlink() {
                Ok(Some((n, c))) => format!("{} {}", txt(n), hex(c)),
                Ok(None) => NONE.into(),
                Err(_) => ERR.into(),
            });
            obs.put("pdb", match o.pdb_info() {
                Ok(Some(c)) => format!("{} {} {}", txt(c.path()), c.age(), hex(&c.guid())),
                Ok(None) => NONE.into(),
                Err(_) => ERR.into(),
            });
        }
        Q::Special(_) => {}
    }
}
