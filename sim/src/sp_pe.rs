//! Format-specific observations of PE and COFF files.
use crate::observe::*;
use object::LittleEndian as LE;
use object::pe;
use object::read::coff::{CoffFile, CoffHeader, SectionTable as CSections, Symbol as _, SymbolTable};
use object::read::pe::*;
use object::read::{ReadRef, SymbolIndex};

pub const PARTS: usize = 7;

fn section_header(i: usize, s: &pe::ImageSectionHeader, obs: &mut Obs) {
    obs.put(format!("ish[{i}]"), format!(
        "{} {:#x}+{:#x} raw {:#x}+{:#x} rel {:#x}/{} line {:#x}/{} ch {:#x}",
        txt(s.raw_name()), s.virtual_address.get(LE), s.virtual_size.get(LE), s.pointer_to_raw_data.get(LE), s.size_of_raw_data.get(LE),
        s.pointer_to_relocations.get(LE), s.number_of_relocations.get(LE), s.pointer_to_linenumbers.get(LE), s.number_of_linenumbers.get(LE), s.characteristics.get(LE).0
    ));
    obs.put(format!("ish[{i}].x"), format!(
        "{:?} {:?} {:?} {:?} al {:#x}", s.coff_file_range(), s.pe_file_range(), s.pe_address_range(), s.name_offset().ok(), s.coff_alignment()
    ));
}

pub fn special<'d, Pe: ImageNtHeaders, R: ReadRef<'d>>(file: &PeFile<'d, Pe, R>, k: usize, obs: &mut Obs) {
    let data = file.data();
    let sections = file.section_table();
    let dirs = file.data_directories();
    match k {
        0 => {
            let d = file.dos_header();
            obs.put("dos", format!("{:#x} {:#x} {} {}", d.e_magic.get(LE), d.e_lfanew.get(LE), d.e_cblp.get(LE), d.nt_headers_offset()));
            let f = file.nt_headers().file_header();
            obs.put("fh", format!(
                "sig {:#x} m {:#x} n {} ts {} sym {:#x}/{} opt {} ch {:#x}", file.nt_headers().signature(), f.machine.get(LE).0, f.number_of_sections.get(LE),
                f.time_date_stamp.get(LE), f.pointer_to_symbol_table.get(LE), f.number_of_symbols.get(LE), f.size_of_optional_header.get(LE), f.characteristics.get(LE).0
            ));
            let o = file.nt_headers().optional_header();
            obs.put("opt", format!(
                "{:#x} {}.{} code {:#x} init {:#x} uninit {:#x} entry {:#x} bcode {:#x} bdata {:?} base {:#x} sal {:#x} fal {:#x} os {}.{} img {}.{} sub {}.{} w32 {} szi {:#x} szh {:#x} sum {:#x} ss {} dll {:#x} st {:#x}/{:#x} hp {:#x}/{:#x} lf {:#x} nd {}",
                o.magic(), o.major_linker_version(), o.minor_linker_version(), o.size_of_code(), o.size_of_initialized_data(), o.size_of_uninitialized_data(),
                o.address_of_entry_point(), o.base_of_code(), o.base_of_data(), o.image_base(), o.section_alignment(), o.file_alignment(),
                o.major_operating_system_version(), o.minor_operating_system_version(), o.major_image_version(), o.minor_image_version(),
                o.major_subsystem_version(), o.minor_subsystem_version(), o.win32_version_value(), o.size_of_image(), o.size_of_headers(), o.check_sum(),
                o.subsystem().0, o.dll_characteristics().0, o.size_of_stack_reserve(), o.size_of_stack_commit(), o.size_of_heap_reserve(), o.size_of_heap_commit(),
                o.loader_flags(), o.number_of_rva_and_sizes()
            ));
            for (i, d) in dirs.enumerate() {
                obs.put(format!("dir[{i}]"), format!("{:#x}+{:#x} {:?}", d.virtual_address.get(LE), d.size.get(LE), d.file_range(&sections).ok()));
                obs.put(format!("dir[{i}].data"), d.data(data, &sections).map(hex).unwrap_or_else(|_| ERR.into()));
            }
            match file.rich_header_info() {
                Some(r) => {
                    obs.put("rich", format!("off {:#x} len {} mask {:#x}", r.offset, r.length, r.xor_key));
                    for (i, e) in r.unmasked_entries().enumerate() {
                        obs.put(format!("rich[{i}]"), format!("{:#x} {}", e.comp_id, e.count));
                    }
                }
                None => obs.put("rich", NONE),
            }
            for (i, s) in sections.iter().enumerate() {
                section_header(i, s, obs);
                let va = s.virtual_address.get(LE);
                for (k, a) in [va, va.wrapping_add(1), va.wrapping_add(s.virtual_size.get(LE)), va.wrapping_sub(1)].into_iter().enumerate() {
                    obs.put(format!("ish[{i}].at{k}"), format!("{:?} {}", sections.pe_file_range_at(a), s.contains_rva(a)));
                    obs.put(format!("ish[{i}].dat{k}"), opt(sections.pe_data_at(data, a), hex));
                    obs.put(format!("ish[{i}].con{k}"), opt(s.pe_data_containing(data, a), |(d, b)| format!("{} @{b:#x}", hex(d))));
                }
                if i == 0 {
                    obs.put("maxoff", format!("{:#x}", sections.max_section_file_offset()));
                    obs.put("dirs", format!("{} {:?}", file.data_directories().len(), file.data_directories().iter().map(|d| d.address_range()).collect::<Vec<_>>()));
                }
                obs.put(format!("ish[{i}].pdata"), s.pe_data(data).map(hex).unwrap_or_else(|_| ERR.into()));
            }
        }
        1 => match dirs.export_table(data, &sections) {
            Ok(Some(t)) => {
                let d = t.directory();
                obs.put("exp", format!(
                    "base {} n {} names {} {:#x} {:#x} {:#x} ob {}", d.base.get(LE), d.number_of_functions.get(LE), d.number_of_names.get(LE),
                    d.address_of_functions.get(LE), d.address_of_names.get(LE), d.address_of_name_ordinals.get(LE), t.ordinal_base()
                ));
                obs.put("exp.dll", rb(t.name_from_pointer(d.name.get(LE))));
                for (i, o, a) in t.address_iter() {
                    obs.put(format!("exp[{}]", i.0), format!("@{} {a:#x} fwd {} ", o.0, t.is_forward(a)));
                    obs.put(format!("exp[{}].i", i.0), format!("{:?}", t.target_by_index(i).ok().map(|x| (x.is_address(), x.is_forward()))));
                    obs.put(format!("exp[{}].t", i.0), format!("{:?} {:?}", t.target_from_address(a).ok(), t.forward_string(a).ok().flatten().map(txt)));
                    obs.put(format!("exp[{}].o", i.0), format!("{:?} {:?} {:?}", t.index_from_ordinal(o).ok(), t.address_by_ordinal(o).ok(), t.target_by_ordinal(o).ok()));
                }
                for (n, (p, i)) in t.name_iter().enumerate() {
                    obs.put(format!("expn[{n}]"), format!("{p:#x} {}", i.0));
                    obs.put(format!("expn[{n}].name"), rb(t.name_from_pointer(p)));
                }
                match t.exports() {
                    Ok(v) => {
                        for (n, e) in v.iter().enumerate() {
                            obs.put(format!("expv[{n}]"), format!("@{} {} {:?}", e.ordinal.0, opt(e.name, txt), e.target));
                        }
                    }
                    Err(_) => obs.put("expv", ERR),
                }
            }
            Ok(None) => {}
            Err(_) => obs.put("exp", ERR),
        },
        2 => match dirs.import_table(data, &sections) {
            Ok(Some(t)) => {
                let mut ds = match t.descriptors() {
                    Ok(d) => d,
                    Err(_) => return obs.put("imp", ERR),
                };
                let mut i = 0;
                loop {
                    match ds.next() {
                        Ok(Some(d)) => {
                            obs.put(format!("imp[{i}]"), format!("{:#x} {} {:#x} {:#x}", d.original_first_thunk.get(LE), d.time_date_stamp.get(LE), d.forwarder_chain.get(LE), d.first_thunk.get(LE)));
                            obs.put(format!("imp[{i}].name"), rb(t.name(d.name.get(LE))));
                            for (k, a) in [("o", d.original_first_thunk.get(LE)), ("f", d.first_thunk.get(LE))] {
                                match t.thunks(a) {
                                    Ok(mut l) => {
                                        let mut j = 0;
                                        loop {
                                            match l.next::<Pe>() {
                                                Ok(Some(x)) => {
                                                    obs.put(format!("imp[{i}].{k}[{j}]"), format!("{:#x} {} {} {:#x}", x.raw(), x.is_ordinal(), x.ordinal(), x.address()));
                                                    obs.put(format!("imp[{i}].{k}[{j}].n"), match t.import::<Pe>(x) {
                                                        Ok(Import::Ordinal(o)) => format!("@{o}"),
                                                        Ok(Import::Name(h, n)) => format!("{h} {}", txt(n)),
                                                        Err(_) => ERR.into(),
                                                    });
                                                }
                                                Ok(None) => break,
                                                Err(_) => {
                                                    obs.put(format!("imp[{i}].{k}[{j}]"), ERR);
                                                    obs.ends("l.next::<Pe>()", || l.next::<Pe>().map(|x| x.is_some()));
                                                    break;
                                                }
                                            }
                                            j += 1;
                                            if obs.over(j, "thunks") {
                                                return;
                                            }
                                        }
                                    }
                                    Err(_) => obs.put(format!("imp[{i}].{k}"), ERR),
                                }
                            }
                        }
                        Ok(None) => break,
                        Err(_) => {
                            obs.put(format!("imp[{i}]"), ERR);
                            obs.ends("ds.next()", || ds.next().map(|x| x.is_some()));
                            break;
                        }
                    }
                    i += 1;
                    // every descriptor may list every thunk of the file
                    if obs.over(i, "import descriptors") || obs.out.len() > 300_000 {
                        return;
                    }
                }
            }
            Ok(None) => {}
            Err(_) => obs.put("imp", ERR),
        },
        3 => match dirs.delay_load_import_table(data, &sections) {
            Ok(Some(t)) => {
                let mut ds = match t.descriptors() {
                    Ok(d) => d,
                    Err(_) => return obs.put("dimp", ERR),
                };
                let mut i = 0;
                loop {
                    match ds.next() {
                        Ok(Some(d)) => {
                            obs.put(format!("dimp[{i}]"), format!(
                                "{:#x} {:#x} {:#x} {:#x} {:#x} {:#x} {}", d.attributes.get(LE), d.module_handle_rva.get(LE), d.import_address_table_rva.get(LE),
                                d.import_name_table_rva.get(LE), d.bound_import_address_table_rva.get(LE), d.unload_information_table_rva.get(LE), d.time_date_stamp.get(LE)
                            ));
                            obs.put(format!("dimp[{i}].name"), rb(t.name(d.dll_name_rva.get(LE))));
                            match t.thunks(d.import_name_table_rva.get(LE)) {
                                Ok(mut l) => {
                                    let mut j = 0;
                                    loop {
                                        match l.next::<Pe>() {
                                            Ok(Some(x)) => {
                                                obs.put(format!("dimp[{i}][{j}]"), format!("{:#x}", x.raw()));
                                                obs.put(format!("dimp[{i}][{j}].n"), match t.import::<Pe>(x) {
                                                    Ok(Import::Ordinal(o)) => format!("@{o}"),
                                                    Ok(Import::Name(h, n)) => format!("{h} {}", txt(n)),
                                                    Err(_) => ERR.into(),
                                                });
                                            }
                                            Ok(None) => break,
                                            Err(_) => {
                                                obs.put(format!("dimp[{i}][{j}]"), ERR);
                                                obs.ends("l.next::<Pe>()", || l.next::<Pe>().map(|x| x.is_some()));
                                                break;
                                            }
                                        }
                                        j += 1;
                                        if obs.over(j, "delay thunks") {
                                            return;
                                        }
                                    }
                                }
                                Err(_) => obs.put(format!("dimp[{i}].thunks"), ERR),
                            }
                        }
                        Ok(None) => break,
                        Err(_) => {
                            obs.put(format!("dimp[{i}]"), ERR);
                            obs.ends("ds.next()", || ds.next().map(|x| x.is_some()));
                            break;
                        }
                    }
                    i += 1;
                    if obs.over(i, "delay descriptors") || obs.out.len() > 300_000 {
                        return;
                    }
                }
            }
            Ok(None) => {}
            Err(_) => obs.put("dimp", ERR),
        },
        4 => match dirs.relocation_blocks(data, &sections) {
            Ok(Some(mut b)) => {
                let mut i = 0;
                loop {
                    match b.next() {
                        Ok(Some(blk)) => {
                            obs.put(format!("brel[{i}]"), format!("{:#x} {}", blk.virtual_address(), blk.size()));
                            for (j, r) in blk.enumerate() {
                                obs.put(format!("brel[{i}][{j}]"), format!("{:#x} {}", r.virtual_address, r.typ.0));
                                if obs.over(j, "base relocations") {
                                    return;
                                }
                            }
                        }
                        Ok(None) => break,
                        Err(_) => {
                            obs.put(format!("brel[{i}]"), ERR);
                            obs.ends("b.next()", || b.next().map(|x| x.is_some()));
                            break;
                        }
                    }
                    i += 1;
                    if obs.over(i, "relocation blocks") {
                        return;
                    }
                }
            }
            Ok(None) => {}
            Err(_) => obs.put("brel", ERR),
        },
        5 => match dirs.resource_directory(data, &sections) {
            Ok(Some(d)) => {
                let mut budget = 3000;
                match d.root() {
                    Ok(t) => resources(d, t, "res".into(), 0, &mut budget, obs),
                    Err(_) => obs.put("res", ERR),
                }
            }
            Ok(None) => {}
            Err(_) => obs.put("res", ERR),
        },
        6 => {
            let h = file.nt_headers().file_header();
            obs.res("csyms", h.symbols(data), |t| t.len().to_string());
            if let Ok(t) = h.symbols(data) {
                symbols(&t, &sections, obs);
            }
        }
        _ => {}
    }
}

fn resources(d: ResourceDirectory<'_>, t: ResourceDirectoryTable<'_>, key: String, depth: usize, budget: &mut usize, obs: &mut Obs) {
    obs.put(&key, format!("{:?} {} {}", t.header.time_date_stamp.get(LE), t.header.number_of_named_entries.get(LE), t.header.number_of_id_entries.get(LE)));
    for (i, e) in t.entries.iter().enumerate() {
        if *budget == 0 {
            return;
        }
        *budget -= 1;
        let k = format!("{key}[{i}]");
        match e.name_or_id() {
            ResourceNameOrId::Name(n) => obs.put(format!("{k}.name"), format!(
                "{:?} {} {}", n.to_string_lossy(d).ok(), n.data(d).map(|x| x.len().to_string()).unwrap_or_else(|_| ERR.into()), n.raw_data(d).map(hex).unwrap_or_else(|_| ERR.into())
            )),
            ResourceNameOrId::Id(i) => obs.put(format!("{k}.id"), i.to_string()),
        }
        obs.put(format!("{k}.e"), format!("{} {} {:#x}", e.has_name(), e.is_table(), e.data_offset()));
        match e.data(d) {
            // a malicious directory may point to itself; descending is the caller's decision
            Ok(ResourceDirectoryEntryData::Table(t)) => {
                if depth < 4 {
                    resources(d, t, k, depth + 1, budget, obs)
                }
            }
            Ok(ResourceDirectoryEntryData::Data(x)) => obs.put(format!("{k}.d"), format!("{:#x}+{:#x} cp {}", x.offset_to_data.get(LE), x.size.get(LE), x.code_page.get(LE))),
            Err(_) => obs.put(format!("{k}.d"), ERR),
        }
    }
}

fn symbols<'d, R: ReadRef<'d>, C: CoffHeader>(t: &SymbolTable<'d, R, C>, secs: &CSections<'d>, obs: &mut Obs) {
    for (n, (i, s)) in t.iter().enumerate() {
        let k = format!("csym[{}]", i.0);
        obs.put(&k, format!(
            "{} val {:#x} sec {} type {:#x} class {} aux {} addr {:?} def={} file={} fn={} sect={} weak={} sec={:?}",
            txt(s.raw_name()), s.value(), s.section_number().0, s.typ().0, s.storage_class().0, s.number_of_aux_symbols(), s.address(0, secs).ok().flatten(),
            s.is_definition(), s.has_aux_file_name(), s.has_aux_function(), s.has_aux_section(), s.has_aux_weak_external(), s.section().map(|s| s.0)
        ));
        obs.put(format!("{k}.name"), rb(s.name(t.strings())));
        if s.has_aux_file_name() {
            obs.put(format!("{k}.file"), rb(t.aux_file_name(i, s.number_of_aux_symbols())));
        }
        if s.has_aux_function() {
            obs.put(format!("{k}.fn"), match t.aux_function(i) {
                Ok(a) => format!("{} {} {}", a.tag_index.get(LE), a.total_size.get(LE), a.pointer_to_linenumber.get(LE)),
                Err(_) => ERR.into(),
            });
        }
        if s.has_aux_section() {
            obs.put(format!("{k}.sec"), match t.aux_section(i) {
                Ok(a) => format!("{} {} {} {:#x} num {} hi {} sel {}", a.length.get(LE), a.number_of_relocations.get(LE), a.number_of_linenumbers.get(LE), a.check_sum.get(LE), a.number.get(LE), a.high_number.get(LE), a.selection.0),
                Err(_) => ERR.into(),
            });
        }
        if s.has_aux_weak_external() {
            obs.put(format!("{k}.weak"), match t.aux_weak_external(i) {
                Ok(a) => format!("{} {}", a.default_symbol().0, a.weak_search_type.get(LE).0),
                Err(_) => ERR.into(),
            });
        }
        if obs.over(n, "coff symbols") {
            return;
        }
    }
    obs.put("csym.last", format!("{:?}", t.symbol(SymbolIndex(t.len())).is_ok()));
}

pub fn coff<'d, R: ReadRef<'d>, C: CoffHeader>(file: &CoffFile<'d, R, C>, data: R, k: usize, obs: &mut Obs) {
    match k {
        0 => {
            let h = file.coff_header();
            obs.put("ch", format!(
                "m {:#x} n {} sym {:#x}/{} ch {:#x} big={}", h.machine().0, h.number_of_sections(), h.pointer_to_symbol_table(), h.number_of_symbols(), h.characteristics().0, C::is_type_bigobj()
            ));
            for (i, s) in file.coff_section_table().iter().enumerate() {
                section_header(i, s, obs);
                obs.put(format!("ish[{i}].name"), rb(s.name(file.coff_symbol_table().strings())));
                match s.coff_relocations(data) {
                    Ok(rs) => {
                        obs.put(format!("ish[{i}].nrel"), rs.len().to_string());
                        for (j, r) in rs.iter().enumerate().take(20_000) {
                            obs.put(format!("ish[{i}].rel[{j}]"), format!("{:#x} {} {:#x}", r.virtual_address.get(LE), r.symbol().0, r.typ.get(LE).0));
                        }
                    }
                    Err(_) => obs.put(format!("ish[{i}].nrel"), ERR),
                }
            }
        }
        1 => symbols(file.coff_symbol_table(), &file.coff_section_table(), obs),
        _ => {}
    }
}
