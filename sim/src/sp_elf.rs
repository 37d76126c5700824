//! Format-specific observations of ELF files.
use crate::observe::*;
use object::elf;
use object::read::elf::*;
use object::read::*;
use object::{Endianness, U32};

pub const PARTS: usize = 9;

pub fn special<'d, Elf: FileHeader<Endian = Endianness>, R: ReadRef<'d>>(file: &ElfFile<'d, Elf, R>, k: usize, obs: &mut Obs) {
    let e = file.endian();
    let data = file.data();
    let h = file.elf_header();
    let sections = file.elf_section_table();
    match k {
        0 => raw(file, obs),
        1 => {
            // Notes.
            for (i, s) in sections.enumerate() {
                if let Ok(Some(n)) = s.notes(e, data) {
                    obs.scope(format!("note.sec[{}].", i.0), |o| notes::<Elf>(e, n, o));
                }
            }
            for (i, p) in file.elf_program_headers().iter().enumerate() {
                match p.notes(e, data) {
                    Ok(Some(n)) => obs.scope(format!("note.ph[{i}]."), |o| notes::<Elf>(e, n, o)),
                    Ok(None) => {}
                    Err(_) => obs.put(format!("note.ph[{i}]"), ERR),
                }
                obs.put(format!("interp[{i}]"), match p.interpreter(e, data) {
                    Ok(Some(n)) => txt(n),
                    Ok(None) => NONE.into(),
                    Err(_) => ERR.into(),
                });
            }
        }
        2 => {
            // Dynamic tables.
            match file.elf_dynamic_table() {
                Ok(t) => {
                    obs.put("dyn.len", format!("{}", t.len()));
                    for (i, d) in t.iter().enumerate() {
                        let s = if d.is_string() { t.string(d).map(txt).unwrap_or_else(|_| ERR.into()) } else { NONE.into() };
                        obs.put(format!("dyn[{i}]"), format!("{:#x} {:#x} {}", d.tag.0, d.val, d.is_address()));
                        obs.put(format!("dyn[{i}].s"), s);
                        if obs.over(i, "dynamic") {
                            break;
                        }
                    }
                }
                Err(_) => obs.put("dyn", ERR),
            }
            match sections.dynamic(e, data) {
                Ok(Some((ds, link))) => {
                    let strings = sections.strings(e, data, link).unwrap_or_default();
                    obs.put("dyns.len", format!("{} link {}", ds.len(), link.0));
                    for (i, d) in ds.iter().enumerate() {
                        obs.put(format!("dyns[{i}]"), format!("{:#x} {:#x} {}", d.d_tag(e).0, d.d_val(e).into(), d.is_string(e)));
                        if d.is_string(e) {
                            obs.put(format!("dyns[{i}].s"), rb(d.string(e, strings)));
                        }
                    }
                }
                Ok(None) => obs.put("dyns", NONE),
                Err(_) => obs.put("dyns", ERR),
            }
            for (i, p) in file.elf_program_headers().iter().enumerate() {
                match p.dynamic(e, data) {
                    Ok(Some(d)) => obs.put(format!("ph[{i}].dyn"), format!("{}", d.len())),
                    Ok(None) => {}
                    Err(_) => obs.put(format!("ph[{i}].dyn"), ERR),
                }
            }
        }
        3 => hashes(file, obs),
        4 => versions(file, obs),
        5 => {
            for (i, s) in sections.enumerate() {
                let t = s.sh_type(e);
                if t == elf::SHT_GNU_ATTRIBUTES || ((t == elf::SHT_ARM_ATTRIBUTES || t.0 == 0x7000_0003) && h.e_machine(e) != elf::EM_MIPS) {
                    obs.scope(format!("attr[{}].", i.0), |o| attributes::<Elf, R>(e, s, data, o));
                }
            }
        }
        6 => {
            for (i, s) in sections.enumerate() {
                obs.scope(format!("esec[{}].", i.0), |obs| {
                    match s.group(e, data) {
                        Ok(Some((f, m))) => obs.put("group", format!("{:#x} {:?}", f.0, m.iter().map(|x| x.get(e)).collect::<Vec<_>>())),
                        Ok(None) => {}
                        Err(_) => obs.put("group", ERR),
                    }
                    match s.compression(e, data) {
                        Ok(Some((c, o, z))) => obs.put("compr", format!("{} {:#x} {:#x} {o:#x} {z:#x}", c.ch_type(e).0, c.ch_size(e).into(), c.ch_addralign(e).into())),
                        Ok(None) => {}
                        Err(_) => obs.put("compr", ERR),
                    }
                    if s.sh_type(e) == elf::SHT_SYMTAB_SHNDX {
                        obs.put("shndx", match s.data_as_array::<U32<Endianness>, R>(e, data) {
                            Ok(d) => format!("{:?}", d.iter().take(50).map(|x| x.get(e)).collect::<Vec<_>>()),
                            Err(_) => ERR.into(),
                        });
                    }
                });
            }
        }
        7 => relocs(file, obs),
        8 => {
            // the entries that apply to each section, symbols by their linked tables
            for s in file.sections() {
                let k = format!("lrel[{}]", s.index().0);
                let is_mips64el = h.is_mips64el(e);
                obs.put(format!("{k}.@of"), format!("{:?}", s.elf_relocation_section_index().map(|x| x.map(|x| x.0)).map_err(|_| ())));
                obs.put(format!("{k}.@rel"), s.elf_linked_rel().map(|r| format!("{:?}", r.iter().map(|r| (r.r_offset(e).into(), r.symbol(e).map(|s| s.0), r.r_type(e).0)).collect::<Vec<_>>())).unwrap_or_else(|_| ERR.into()));
                obs.put(format!("{k}.@rela"), s.elf_linked_rela().map(|r| format!("{:?}", r.iter().map(|r| (r.r_offset(e).into(), r.symbol(e, is_mips64el).map(|s| s.0), r.r_type(e, is_mips64el).0, r.r_addend(e).into())).collect::<Vec<_>>())).unwrap_or_else(|_| ERR.into()));
            }
            for (i, s) in sections.enumerate() {
                match s.symbols(e, data, sections, i) {
                    Ok(Some(t)) => {
                        obs.put(format!("lsym[{}]", i.0), format!("{} {} {:?}", t.len(), t.string_section().0, (0..t.len().min(200)).map(|n| t.shndx(e, SymbolIndex(n))).collect::<Vec<_>>()));
                        let m = t.map(e, |s| Some(SymbolMapName::new(s.st_value(e).into(), s.st_size(e).into(), std::str::from_utf8(s.name(e, t.strings()).ok()?).ok()?)));
                        obs.put(format!("lsym[{}].@map", i.0), format!("{:?}", m.symbols().iter().take(500).map(|s| (s.address(), s.name())).collect::<Vec<_>>()));
                    }
                    Ok(None) => {}
                    Err(_) => obs.put(format!("lsym[{}]", i.0), ERR),
                }
                match s.dynamic_table(e, data, sections) {
                    Ok(Some(t)) => obs.put(format!("ldyn[{}]", i.0), format!("{} {}", t.len(), t.is_empty())),
                    Ok(None) => {}
                    Err(_) => obs.put(format!("ldyn[{}]", i.0), ERR),
                }
                if let Ok(Some((ds, _))) = s.dynamic(e, data) {
                    obs.put(format!("ldyn[{}].raw", i.0), format!("{:?}", ds.iter().take(200).map(|d| (d.val(e), d.tag32(e), d.val32(e), d.is_address(e))).collect::<Vec<_>>()));
                }
            }
        }
        _ => {}
    }
}

fn raw<'d, Elf: FileHeader<Endian = Endianness>, R: ReadRef<'d>>(file: &ElfFile<'d, Elf, R>, obs: &mut Obs) {
    let e = file.endian();
    let h = file.elf_header();
    let data = file.data();
    let sections = file.elf_section_table();
    obs.put("eh.ident", format!("{:?}", h.e_ident()));
    obs.put("eh", format!(
        "type {:#x} machine {:#x} v{} entry {:#x} ph {:#x} sh {:#x} flags {:#x} ehsize {} phent {} phnum {} shent {} shnum {} shstr {:#x} sup={} le={} be={} 64={}",
        h.e_type(e).0, h.e_machine(e).0, h.e_version(e), h.e_entry(e).into(), h.e_phoff(e).into(), h.e_shoff(e).into(), h.e_flags(e).0,
        h.e_ehsize(e), h.e_phentsize(e), h.e_phnum(e), h.e_shentsize(e), h.e_shnum(e), h.e_shstrndx(e).0,
        h.is_supported(), h.is_little_endian(), h.is_big_endian(), h.is_type_64()
    ));
    obs.res("eh.phnum", h.phnum(e, data), |v| v.to_string());
    obs.res("eh.shnum", h.shnum(e, data), |v| v.to_string());
    obs.res("eh.shstrndx", h.shstrndx(e, data), |v| v.to_string());
    for (i, p) in file.elf_program_headers().iter().enumerate() {
        obs.put(format!("ph[{i}]"), format!(
            "{:#x} {:#x} off {:#x} va {:#x} pa {:#x} fsz {:#x} msz {:#x} al {:#x}",
            p.p_type(e).0, p.p_flags(e).0, p.p_offset(e).into(), p.p_vaddr(e).into(), p.p_paddr(e).into(), p.p_filesz(e).into(), p.p_memsz(e).into(), p.p_align(e).into()
        ));
        obs.put(format!("ph[{i}].data"), p.data(e, data).map(hex).unwrap_or_else(|_| ERR.into()));
    }
    for (i, s) in sections.enumerate() {
        obs.put(format!("sh[{}]", i.0), format!(
            "{:#x} {:#x} {:#x} {:#x} {:#x} {:#x} link {} info {} al {:#x} ent {:#x} il={} {:?}",
            s.sh_name(e), s.sh_type(e).0, s.sh_flags(e).0, s.sh_addr(e).into(), s.sh_offset(e).into(), s.sh_size(e).into(),
            s.sh_link(e), s.sh_info(e), s.sh_addralign(e).into(), s.sh_entsize(e).into(), s.has_info_link(e), s.file_range(e)
        ));
        obs.put(format!("sh[{}].name", i.0), rb(sections.section_name(e, s)));
        obs.put(format!("sh[{}].relsec", i.0), opt(file.elf_relocation_sections().get(i), |s| s.0.to_string()));
    }
    for (key, t) in [("symtab", file.elf_symbol_table()), ("dynsym", file.elf_dynamic_symbol_table())] {
        obs.put(key, format!("sec {} str {} shndx {} len {}", t.section().0, t.string_section().0, t.shndx_section().0, t.len()));
        for (i, s) in t.enumerate() {
            obs.put(format!("{key}[{}]", i.0), format!(
                "{} info {:#x} other {:#x} shndx {:#x} val {:#x} size {:#x}  {}{}{}{}{}",
                s.st_name(e), s.st_info().0, s.st_other().0, s.st_shndx(e).0, s.st_value(e).into(), s.st_size(e).into(),
                s.is_undefined(e) as u8, s.is_common(e) as u8, s.is_absolute(e) as u8, s.is_local() as u8, s.is_weak() as u8
            ));
            obs.put(format!("{key}[{i}]@def"), s.is_definition(e, t.strings()).to_string());
            obs.put(format!("{key}[{}].name", i.0), rb(t.symbol_name(e, s)));
            obs.put(format!("{key}[{}].sec", i.0), match t.symbol_section(e, s, i) {
                Ok(Some(x)) => x.0.to_string(),
                Ok(None) => NONE.into(),
                Err(_) => ERR.into(),
            });
        }
    }
}

fn notes<Elf: FileHeader<Endian = Endianness>>(e: Endianness, mut n: NoteIterator<'_, Elf>, obs: &mut Obs) {
    let mut i = 0;
    loop {
        match n.next() {
            Ok(Some(note)) => {
                obs.put(format!("[{i}]"), format!(
                    "{} {} type {:#x} sizes {} {} desc {}",
                    txt(note.name_bytes()), txt(note.name()), note.n_type(e).0, note.n_namesz(e), note.n_descsz(e), hex(note.desc())
                ));
                if let Some(mut ps) = note.gnu_properties(e) {
                    let mut j = 0;
                    loop {
                        match ps.next() {
                            Ok(Some(p)) => obs.put(format!("[{i}].prop[{j}]"), format!(
                                "{:#x} {} {}", p.pr_type().0, hex(p.pr_data()), p.data_u32(e).map(|x| format!("{x:#x}")).unwrap_or_else(|_| ERR.into())
                            )),
                            Ok(None) => break,
                            Err(_) => {
                                obs.put(format!("[{i}].prop[{j}]"), ERR);
                                obs.ends("ps.next()", || ps.next().map(|x| x.is_some()));
                                break;
                            }
                        }
                        j += 1;
                        if obs.over(j, "note properties") {
                            break;
                        }
                    }
                }
            }
            Ok(None) => break,
            Err(_) => {
                obs.put(format!("[{i}]"), ERR);
                obs.ends("n.next()", || n.next().map(|x| x.is_some()));
                break;
            }
        }
        i += 1;
        if obs.over(i, "notes") {
            break;
        }
    }
}

/// Every dynamic symbol is looked up by name through the hash tables.
fn hashes<'d, Elf: FileHeader<Endian = Endianness>, R: ReadRef<'d>>(file: &ElfFile<'d, Elf, R>, obs: &mut Obs) {
    let e = file.endian();
    let data = file.data();
    let sections = file.elf_section_table();
    let dynsyms = file.elf_dynamic_symbol_table();
    let versions = sections.versions(e, data);
    // (lookups without the versions that are there say nothing)
    let meant = versions.is_ok();
    let versions = versions.ok().flatten().unwrap_or_default();
    match sections.hash_header(e, data) {
        Ok(Some(h)) => obs.put("hashh", format!("{} {}", h.bucket_count.get(e), h.chain_count.get(e))),
        Ok(None) => {}
        Err(_) => obs.put("hashh", ERR),
    }
    match sections.gnu_hash_header(e, data) {
        Ok(Some(h)) => obs.put("ghashh", format!("{} {} {} {}", h.bucket_count.get(e), h.symbol_base.get(e), h.bloom_count.get(e), h.bloom_shift.get(e))),
        Ok(None) => {}
        Err(_) => obs.put("ghashh", ERR),
    }
    let hash = match sections.hash(e, data) {
        Ok(h) => h,
        Err(_) => {
            obs.put("hash", ERR);
            None
        }
    };
    let gnu = match sections.gnu_hash(e, data) {
        Ok(h) => h,
        Err(_) => {
            obs.put("ghash", ERR);
            None
        }
    };
    if let Some((h, l)) = &hash {
        obs.put("hash", format!("len {} link {}", h.symbol_table_length(), l.0));
    }
    if let Some((h, l)) = &gnu {
        obs.put("ghash", format!("base {} len {:?} link {}", h.symbol_base(), h.symbol_table_length(e), l.0));
    }
    if hash.is_none() && gnu.is_none() {
        return;
    }
    let mut names: Vec<(Vec<u8>, Option<usize>)> = vec![(b"".to_vec(), None), (b"no_such_symbol".to_vec(), None)];
    for (i, s) in dynsyms.enumerate().take(400) {
        if let Ok(n) = dynsyms.symbol_name(e, s) {
            names.push((n.to_vec(), Some(i.0)));
        }
    }
    // `find` cannot report an error: when it cannot read the name of the first of several
    // symbols of one name, it gives the next. These may be found besides.
    let mut alike: std::collections::HashMap<Vec<u8>, Vec<usize>> = Default::default();
    for (n, i) in &names {
        if let Some(i) = i {
            alike.entry(n.clone()).or_default().push(*i);
        }
    }
    for (n, i) in names {
        if let (Some(same), true) = (alike.get(&n), meant) {
            let i = i.map(|x| x.to_string()).unwrap_or_else(|| "-".into());
            if same.len() < 20 && (same.len() > 1 || i == "-") {
                for s in same {
                    obs.put(format!("hashfind[{i}]"), format!("{:#x} {s}", elf::hash(&n)));
                    obs.put(format!("ghashfind[{i}]"), format!("{:#x} {s}", elf::gnu_hash(&n)));
                }
            }
        }
        let idx = i.map(|x| x.to_string()).unwrap_or_else(|| "-".into());
        let hv = elf::hash(&n);
        let gv = elf::gnu_hash(&n);
        let ver = i.and_then(|i| versions.version(versions.version_index(e, SymbolIndex(i)).index()).ok().flatten().cloned());
        for (vk, v) in [("", None), ("@", ver.as_ref())] {
            if vk == "@" && v.is_none() {
                continue;
            }
            if let Some((h, _)) = &hash {
                let r = h.find(e, &n, hv, v, dynsyms, &versions);
                if meant {
                    obs.put(format!("hashfind{vk}[{idx}]"), format!("{:#x} {}", hv, opt(r, |x| x.0.0.to_string())));
                }
            }
            if let Some((h, _)) = &gnu {
                let r = h.find(e, &n, gv, v, dynsyms, &versions);
                if meant {
                    obs.put(format!("ghashfind{vk}[{idx}]"), format!("{:#x} {}", gv, opt(r, |x| x.0.0.to_string())));
                }
            }
        }
    }
}

fn versions<'d, Elf: FileHeader<Endian = Endianness>, R: ReadRef<'d>>(file: &ElfFile<'d, Elf, R>, obs: &mut Obs) {
    let e = file.endian();
    let data = file.data();
    let sections = file.elf_section_table();
    match sections.gnu_versym(e, data) {
        Ok(Some((v, l))) => {
            obs.put("versym", format!("{} link {}", v.len(), l.0));
            for (i, x) in v.iter().enumerate() {
                obs.put(format!("versym[{i}]"), format!("{:#x}", x.0.get(e).0));
            }
        }
        Ok(None) => {}
        Err(_) => obs.put("versym", ERR),
    }
    match sections.gnu_verdef(e, data) {
        Ok(Some((mut it, l))) => {
            let strings = sections.strings(e, data, l).unwrap_or_default();
            let mut i = 0;
            loop {
                match it.next() {
                    Ok(Some((d, mut aux))) => {
                        obs.put(format!("verdef[{i}]"), format!(
                            "v{} f{:#x} ndx {} cnt {} hash {:#x} aux {} next {}",
                            d.vd_version.get(e), d.vd_flags.get(e).0, d.vd_ndx.get(e).0, d.vd_cnt.get(e), d.vd_hash.get(e), d.vd_aux.get(e), d.vd_next.get(e)
                        ));
                        let mut j = 0;
                        loop {
                            match aux.next() {
                                Ok(Some(a)) => if j < 500 { obs.put(format!("verdef[{i}].aux[{j}]"), rb(a.name(e, strings))) },
                                Ok(None) => break,
                                Err(_) => {
                                    obs.put(format!("verdef[{i}].aux[{j}]"), ERR);
                                    obs.ends("aux.next()", || aux.next().map(|x| x.is_some()));
                                    break;
                                }
                            }
                            j += 1;
                            // the count is a 16-bit field
                            if j > 65535 && obs.over(usize::MAX, "verdaux") {
                                return;
                            }
                        }
                    }
                    Ok(None) => break,
                    Err(_) => {
                        obs.put(format!("verdef[{i}]"), ERR);
                        obs.ends("it.next()", || it.next().map(|x| x.is_some()));
                        break;
                    }
                }
                i += 1;
                if obs.over(i, "verdef") || i > 300 {
                    break;
                }
            }
        }
        Ok(None) => {}
        Err(_) => obs.put("verdef", ERR),
    }
    match sections.gnu_verneed(e, data) {
        Ok(Some((mut it, l))) => {
            let strings = sections.strings(e, data, l).unwrap_or_default();
            let mut i = 0;
            loop {
                match it.next() {
                    Ok(Some((d, mut aux))) => {
                        obs.put(format!("verneed[{i}]"), format!("v{} cnt {} aux {} next {}", d.vn_version.get(e), d.vn_cnt.get(e), d.vn_aux.get(e), d.vn_next.get(e)));
                        obs.put(format!("verneed[{i}].file"), rb(d.file(e, strings)));
                        let mut j = 0;
                        loop {
                            match aux.next() {
                                Ok(Some(a)) => if j < 500 { obs.put(format!("verneed[{i}].aux[{j}]"), format!(
                                    "{:#x} f{:#x} o{:#x} {}", a.vna_hash.get(e), a.vna_flags.get(e).0, a.vna_other(e).0, rb(a.name(e, strings))
                                )) },
                                Ok(None) => break,
                                Err(_) => {
                                    obs.put(format!("verneed[{i}].aux[{j}]"), ERR);
                                    obs.ends("aux.next()", || aux.next().map(|x| x.is_some()));
                                    break;
                                }
                            }
                            j += 1;
                            // the count is a 16-bit field
                            if j > 65535 && obs.over(usize::MAX, "vernaux") {
                                return;
                            }
                        }
                    }
                    Ok(None) => break,
                    Err(_) => {
                        obs.put(format!("verneed[{i}]"), ERR);
                        obs.ends("it.next()", || it.next().map(|x| x.is_some()));
                        break;
                    }
                }
                i += 1;
                if obs.over(i, "verneed") || i > 300 {
                    break;
                }
            }
        }
        Ok(None) => {}
        Err(_) => obs.put("verneed", ERR),
    }
    match sections.versions(e, data) {
        Ok(Some(v)) => {
            obs.put("versions", format!("empty {}", v.is_empty()));
            let n = file.elf_dynamic_symbol_table().len().min(5000);
            for i in 0..n {
                let vi = v.version_index(e, SymbolIndex(i));
                obs.put(format!("version[{i}]"), match v.version(vi.index()) {
                    Ok(Some(x)) => format!("{:#x} {} {:#x} {}", vi.0, txt(x.name()), x.hash(), opt(x.file(), txt)),
                    Ok(None) => format!("{:#x} {NONE}", vi.0),
                    Err(_) => ERR.into(),
                });
            }
        }
        Ok(None) => obs.put("versions", NONE),
        Err(_) => obs.put("versions", ERR),
    }
}

fn attributes<'d, Elf: FileHeader<Endian = Endianness>, R: ReadRef<'d>>(e: Endianness, s: &Elf::SectionHeader, data: R, obs: &mut Obs) {
    let sec = match s.attributes(e, data) {
        Ok(s) => s,
        Err(_) => return obs.put("", ERR),
    };
    obs.put("version", format!("{}", sec.version()));
    let mut subs = match sec.subsections() {
        Ok(s) => s,
        Err(_) => return obs.put("subs", ERR),
    };
    let mut i = 0;
    loop {
        match subs.next() {
            Ok(Some(sub)) => {
                obs.put(format!("[{i}]"), format!("{} {}", sub.length(), txt(sub.vendor())));
                let mut ss = sub.subsubsections();
                let mut j = 0;
                loop {
                    match ss.next() {
                        Ok(Some(x)) => {
                            obs.put(format!("[{i}][{j}]"), format!("tag {} len {} idx {} attr {}", x.tag().0, x.length(), hex(x.indices_data()), hex(x.attributes_data())));
                            let mut it = x.indices();
                            let mut k = 0;
                            loop {
                                match it.next() {
                                    Ok(Some(v)) => obs.put(format!("[{i}][{j}].idx[{k}]"), v.to_string()),
                                    Ok(None) => break,
                                    Err(_) => {
                                        obs.put(format!("[{i}][{j}].idx[{k}]"), ERR);
                                        obs.ends("it.next()", || it.next().map(|x| x.is_some()));
                                        break;
                                    }
                                }
                                k += 1;
                                if obs.over(k, "attribute indices") {
                                    return;
                                }
                            }
                            let mut rd = x.attributes();
                            let mut k = 0;
                            loop {
                                match rd.read_tag() {
                                    Ok(Some(t)) => {
                                        // Conventional encoding: odd tags are strings; 32 has both.
                                        let v = if t == 32 || t == 65 && sub.vendor() == b"aeabi" {
                                            let a = rd.read_integer().map(|x| x.to_string()).unwrap_or_else(|_| ERR.into());
                                            format!("{a} {}", rd.read_string().map(txt).unwrap_or_else(|_| ERR.into()))
                                        } else if t & 1 == 1 && t > 32 || t == 4 || t == 5 {
                                            rd.read_string().map(txt).unwrap_or_else(|_| ERR.into())
                                        } else {
                                            rd.read_integer().map(|x| x.to_string()).unwrap_or_else(|_| ERR.into())
                                        };
                                        obs.put(format!("[{i}][{j}].at[{k}]"), format!("{t}={v}"));
                                        if v.contains(ERR) {
                                            break;
                                        }
                                    }
                                    Ok(None) => break,
                                    Err(_) => {
                                        obs.put(format!("[{i}][{j}].at[{k}]"), ERR);
                                        obs.ends("rd.read_tag()", || rd.read_tag().map(|x| x.is_some()));
                                        break;
                                    }
                                }
                                k += 1;
                                if obs.over(k, "attributes") {
                                    return;
                                }
                            }
                        }
                        Ok(None) => break,
                        Err(_) => {
                            obs.put(format!("[{i}][{j}]"), ERR);
                            obs.ends("ss.next()", || ss.next().map(|x| x.is_some()));
                            break;
                        }
                    }
                    j += 1;
                    if obs.over(j, "attribute subsubsections") {
                        return;
                    }
                }
            }
            Ok(None) => break,
            Err(_) => {
                obs.put(format!("[{i}]"), ERR);
                obs.ends("subs.next()", || subs.next().map(|x| x.is_some()));
                break;
            }
        }
        i += 1;
        if obs.over(i, "attribute subsections") {
            return;
        }
    }
}

fn relocs<'d, Elf: FileHeader<Endian = Endianness>, R: ReadRef<'d>>(file: &ElfFile<'d, Elf, R>, obs: &mut Obs) {
    let e = file.endian();
    let data = file.data();
    let mips64el = file.elf_header().is_mips64el(e);
    for (i, s) in file.elf_section_table().enumerate() {
        obs.scope(format!("erel[{}].", i.0), |obs| {
            match s.rel(e, data) {
                Ok(Some((r, l))) => {
                    obs.put("rel", format!("{} link {}", r.len(), l.0));
                    for (n, r) in r.iter().enumerate() {
                        obs.put(format!("rel[{n}]"), format!("{:#x} {:#x} {} {:#x}", r.r_offset(e).into(), r.r_info(e).into(), r.r_sym(e), r.r_type(e).0));
                    }
                }
                Ok(None) => {}
                Err(_) => obs.put("rel", ERR),
            }
            match s.rela(e, data) {
                Ok(Some((r, l))) => {
                    obs.put("rela", format!("{} link {}", r.len(), l.0));
                    for (n, r) in r.iter().enumerate() {
                        obs.put(format!("rela[{n}]"), format!("{:#x} {:#x} {} {:#x} {}", r.r_offset(e).into(), r.r_info(e, mips64el).into(), r.r_sym(e, mips64el), r.r_type(e, mips64el).0, r.r_addend(e).into()));
                    }
                }
                Ok(None) => {}
                Err(_) => obs.put("rela", ERR),
            }
            match s.relr(e, data) {
                Ok(Some(r)) => {
                    for (n, v) in r.enumerate() {
                        obs.put(format!("relr[{n}]"), format!("{:#x}", v.into()));
                        // one bitmap word of the file stands for up to 63 entries
                        if n > 64 * obs.cap {
                            obs.overrun.get_or_insert_with(|| "relr".into());
                            break;
                        }
                        if n > 100_000 {
                            break;
                        }
                    }
                }
                Ok(None) => {}
                Err(_) => obs.put("relr", ERR),
            }
            match s.crel(e, data) {
                Ok(Some((r, l))) => {
                    let all: Vec<_> = r.clone().collect();
                    obs.put("crel.all", format!("{} {}", all.len(), all.iter().filter(|x| x.is_err()).count()));
                    obs.put("crel", format!("{} rela={} link {}", r.len(), r.is_rela(), l.0));
                    for (n, v) in r.enumerate() {
                        obs.put(format!("crel[{n}]"), match v {
                            Ok(c) => format!("{:#x} {} {:#x} {}", c.r_offset, c.r_sym, c.r_type.0, c.r_addend),
                            Err(_) => ERR.into(),
                        });
                        if obs.over(n, "crel") {
                            break;
                        }
                    }
                }
                Ok(None) => {}
                Err(_) => obs.put("crel", ERR),
            }
        });
    }
}
