//! Format-specific observations of Mach-O files.
use crate::observe::*;
use object::macho;
use object::read::macho::*;
use object::read::{Object, ObjectSegment, ReadRef, Result};
use object::{BigEndian, Endianness};

pub const PARTS: usize = 6;

/// Opcodes can repeat an entry as often as they like: a long list is no defect.
fn expanded<T>(obs: &mut Obs, key: &str, mut next: impl FnMut() -> Result<Option<T>>, f: impl Fn(T) -> String) {
    let mut left = obs.cap.min(20_000);
    list(obs, key, || if left == 0 { Ok(None) } else { left -= 1; next() }, f);
}

fn list<T>(obs: &mut Obs, key: &str, mut next: impl FnMut() -> Result<Option<T>>, f: impl Fn(T) -> String) {
    let mut i = 0;
    loop {
        match next() {
            Ok(Some(v)) => obs.put(format!("{key}[{i}]"), f(v)),
            Ok(None) => break,
            Err(_) => {
                obs.put(format!("{key}[{i}]"), ERR);
                obs.ends("next()", || next().map(|x| x.is_some()));
                break;
            }
        }
        i += 1;
        if obs.over(i, key) {
            break;
        }
    }
}

pub fn special<'d, Mach: MachHeader<Endian = Endianness>, R: ReadRef<'d>>(file: &MachOFile<'d, Mach, R>, k: usize, obs: &mut Obs) {
    let e = file.endian();
    let data = file.data();
    let h = file.macho_header();
    let ptr = if h.is_type_64() { 8 } else { 4 };
    match k {
        0 => {
            obs.put("mh", format!(
                "{:#x} cpu {:#x}/{:#x} type {:#x} ncmds {} sizeof {} flags {:#x} le={} be={}",
                h.magic(), h.cputype(e).0, h.cpusubtype(e).0, h.filetype(e).0, h.ncmds(e), h.sizeofcmds(e), h.flags(e).0, h.is_little_endian(), h.is_big_endian()
            ));
            obs.put("@build", format!("{:?}", file.build_version().map(|b| b.map(|(b, t)| (b.platform.get(e).0, b.minos.get(e), b.sdk.get(e), b.ntools.get(e), t.iter().map(|t| (t.tool.get(e).0, t.version.get(e))).collect::<Vec<_>>()))).map_err(|_| ())));
            obs.res("uuid2", h.uuid(e, data, 0), |u| format!("{u:?}"));
        }
        1 => {
            let mut it = match file.macho_load_commands() {
                Ok(it) => it,
                Err(_) => return obs.put("lc", ERR),
            };
            let mut i = 0;
            loop {
                match it.next() {
                    Ok(Some(c)) => obs.scope(format!("lc[{i}]."), |o| command::<Mach, R>(e, data, file, c, o)),
                    Ok(None) => break,
                    Err(_) => {
                        obs.put(format!("lc[{i}]"), ERR);
                        obs.ends("it.next()", || it.next().map(|x| x.is_some()));
                        break;
                    }
                }
                i += 1;
                if obs.over(i, "load commands") {
                    break;
                }
            }
        }
        2 => {
            // Symbols, raw.
            let t = file.macho_symbol_table();
            obs.put("nlist", format!("{}", t.len()));
            for (i, s) in t.iter().enumerate() {
                obs.put(format!("nlist[{i}]"), format!(
                    "{} {:#x} {} {:#x} {:#x} stab={} undef={} def={}",
                    s.n_strx(e), s.n_type().0, s.n_sect(), s.n_desc(e).0, s.n_value(e).into(), s.is_stab(), s.is_undefined(), s.is_definition()
                ));
                obs.put(format!("nlist[{i}].x"), format!("lib {:?} stab {:?} common={}", s.library_ordinal(e), s.stab(), s.is_common()));
                obs.put(format!("nlist[{i}].name"), rb(s.name(e, t.strings())));
            }
        }
        4 => {
            if let Ok(mut it) = file.macho_load_commands() {
                while let Ok(Some(c)) = it.next() {
                    if let Ok(Some(d)) = c.dyld_info() {
                        match d.rebases(e, data, ptr) {
                            Ok(mut it) => expanded(obs, "rebase", || it.next(), |r| format!("{r:?}")),
                            Err(_) => obs.put("rebase", ERR),
                        }
                        for (key, it) in [("bind", d.binds(e, data, ptr)), ("weak", d.weak_binds(e, data, ptr)), ("lazy", d.lazy_binds(e, data, ptr))] {
                            match it {
                                Ok(mut it) => expanded(obs, key, || it.next(), |b| {
                                    format!("{} {:#x} {:?} {:?} {:?} {} {}", b.segment_index, b.segment_offset, b.kind, b.dylib, b.flags, txt(b.symbol), b.addend)
                                }),
                                Err(_) => obs.put(key, ERR),
                            }
                        }
                        match d.rebase_operations(e, data) {
                            Ok(mut it) => list(obs, "rebop", || it.next(), |(o, r)| format!("{o:?} {r:?}")),
                            Err(_) => obs.put("rebop", ERR),
                        }
                        for (key, it) in [("bindop", d.bind_operations(e, data)), ("weakop", d.weak_bind_operations(e, data)), ("lazyop", d.lazy_bind_operations(e, data))] {
                            match it {
                                Ok(mut it) => list(obs, key, || it.next(), |(o, r)| format!("{o:?} {r:?}")),
                                Err(_) => obs.put(key, ERR),
                            }
                        }
                        match d.exports_trie(e, data) {
                            Ok(mut t) => list(obs, "itrie", || t.next(), |x| format!("{} {:#x} {:?}", txt(x.name()), x.flags().0, x.data())),
                            Err(_) => obs.put("itrie", ERR),
                        }
                    }
                }
            }
        }
        5 => fixups(file, obs),
        _ => {}
    }
}

fn command<'d, Mach: MachHeader<Endian = Endianness>, R: ReadRef<'d>>(e: Endianness, data: R, file: &MachOFile<'d, Mach, R>, c: LoadCommandData<'d, Endianness>, obs: &mut Obs) {
    obs.put("", format!("{:#x} size {} at {:#x} {}", c.cmd().0, c.cmdsize(), c.offset(), hex(c.raw_data())));
    let v = match c.variant() {
        Ok(v) => v,
        Err(_) => return obs.put("variant", ERR),
    };
    use LoadCommandVariant as V;
    let name = format!("{v:?}");
    obs.put("variant", name.split('(').next().unwrap_or("").to_string());
    let s = |x| rb(c.string(e, x));
    match v {
        V::Segment32(..) | V::Segment64(..) => {
            if let Ok(Some((seg, sd))) = Mach::Segment::from_command(c) {
                obs.put("seg", format!(
                    "{} vm {:#x}+{:#x} file {:#x}+{:#x} prot {:#x}/{:#x} nsects {} flags {:#x}",
                    txt(seg.name()), seg.vmaddr(e).into(), seg.vmsize(e).into(), seg.fileoff(e).into(), seg.filesize(e).into(), seg.maxprot(e).0, seg.initprot(e).0, seg.nsects(e), seg.flags(e).0
                ));
                obs.put("segdata", seg.data(e, data).map(hex).unwrap_or_else(|_| ERR.into()));
                match seg.sections(e, sd) {
                    Ok(ss) => {
                        for (i, s) in ss.iter().enumerate() {
                            obs.put(format!("sect[{i}]"), format!(
                                "{},{} {:#x}+{:#x} off {:#x} al {} rel {:#x}/{} flags {:#x} r1 {} r2 {} {:?}",
                                txt(s.segment_name()), txt(s.name()), s.addr(e).into(), s.size(e).into(), s.offset(e), s.align(e), s.reloff(e), s.nreloc(e), s.flags(e).0, s.reserved1(e), s.reserved2(e), s.file_range(e, 0)
                            ));
                            obs.put(format!("sect[{i}].stub"), s.symbol_stub_size(e).to_string());
                            let ind = file.macho_load_commands().ok().and_then(|mut it| {
                                while let Ok(Some(c)) = it.next() {
                                    if let Ok(Some(d)) = c.dysymtab() {
                                        return d.indirect_symbols(e, data).ok();
                                    }
                                }
                                None
                            });
                            if let Some(ind) = ind {
                                obs.put(format!("sect[{i}].@ind"), s.indirect_symbols(e, ind).map(|v| format!("{:?}", v.iter().map(|v| v.get(e).0).collect::<Vec<_>>())).unwrap_or_else(|_| ERR.into()));
                            }
                            match s.relocations(e, data) {
                                Ok(rs) => {
                                    let cpu = file.macho_header().cputype(e);
                                    for (j, r) in rs.iter().enumerate() {
                                        obs.put(format!("sect[{i}].rel[{j}]"), if r.r_scattered(e, cpu) {
                                            format!("{:?}", r.scattered_info(e))
                                        } else {
                                            format!("{:?}", r.info(e))
                                        });
                                    }
                                }
                                Err(_) => obs.put(format!("sect[{i}].rel"), ERR),
                            }
                        }
                    }
                    Err(_) => obs.put("sect", ERR),
                }
            }
        }
        V::Symtab(x) => obs.put("v", format!("{} {} {} {}", x.symoff.get(e), x.nsyms.get(e), x.stroff.get(e), x.strsize.get(e))),
        V::Dysymtab(x) => {
            obs.put("v", format!(
                "{} {} {} {} {} {} ind {} {} ext {} {} loc {} {}",
                x.ilocalsym.get(e), x.nlocalsym.get(e), x.iextdefsym.get(e), x.nextdefsym.get(e), x.iundefsym.get(e), x.nundefsym.get(e),
                x.indirectsymoff.get(e), x.nindirectsyms.get(e), x.extreloff.get(e), x.nextrel.get(e), x.locreloff.get(e), x.nlocrel.get(e)
            ));
            match x.indirect_symbols(e, data) {
                Ok(t) => {
                    for (i, v) in t.iter().enumerate() {
                        obs.put(format!("ind[{i}]"), format!("{:#x}", v.get(e).0));
                    }
                }
                Err(_) => obs.put("ind", ERR),
            }
        }
        V::DyldInfo(x) => {
            for (k, r) in [("rebd", x.rebase_data(e, data)), ("bindd", x.bind_data(e, data)), ("weakd", x.weak_bind_data(e, data)), ("lazyd", x.lazy_bind_data(e, data)), ("expd", x.export_data(e, data))] {
                obs.put(k, r.map(hex).unwrap_or_else(|_| ERR.into()));
            }
        }
        V::LinkeditData(x) => {
            obs.put("v", format!("{:#x} {:#x}", x.dataoff.get(e), x.datasize.get(e)));
            obs.put("data", x.data(e, data).map(hex).unwrap_or_else(|_| ERR.into()));
            let text = file.segments().find(|s| s.name_bytes() == Ok(Some(b"__TEXT"))).map(|s| s.address());
            if c.cmd() == macho::LC_FUNCTION_STARTS {
                let (unreadable, text) = (text.is_none(), text.unwrap_or(0));
                obs.put("fstart.base", if unreadable { ERR.to_string() } else { format!("{text:#x}") });
                match x.function_starts(e, data, text) {
                    Ok(_) if unreadable => obs.put("fstart", ERR),
                    Ok(mut it) => list(obs, "fstart", || it.next(), |v| format!("{v:#x}")),
                    Err(_) => obs.put("fstart", ERR),
                }
            }
            if c.cmd() == macho::LC_DYLD_EXPORTS_TRIE {
                match x.exports_trie(e, data) {
                    Ok(mut it) => list(obs, "etrie", || it.next(), |x| format!("{} {:#x} {:?}", txt(x.name()), x.flags().0, x.data())),
                    Err(_) => obs.put("etrie", ERR),
                }
            }
            if c.cmd() == macho::LC_CODE_SIGNATURE {
                match x.code_signature(e, data) {
                    Ok(cs) => {
                        obs.put("cs", format!("{} {}", cs.header().magic.get(BigEndian), cs.index().len()));
                        let mut b = cs.blobs();
                        let mut dirs = Vec::new();
                        list(obs, "blob", || b.next(), |b| format!("{} {} {:#x} {} {}", b.slot().0, b.offset(), b.magic(), hex(b.data()), hex(b.contents())));
                        let mut b = cs.blobs();
                        let mut n = 0;
                        while let Ok(Some(x)) = b.next() {
                            if let Ok(Some(d)) = x.code_directory() {
                                dirs.push(d);
                            }
                            n += 1;
                            if n > 1000 {
                                break;
                            }
                        }
                        for (i, d) in dirs.iter().enumerate().take(50) {
                            obs.put(format!("cd[{i}]"), format!(
                                "v{:#x} limit {:#x} {:?} scatter {:?} team {:?} exec {:?} ident {} team {:?} slots {} {}",
                                d.version().0, d.code_limit(), d.code_limit64(), d.scatter_offset(), d.team_offset(), d.exec_seg().map(|x| x.exec_seg_base.get(BigEndian)),
                                rb(d.ident()), d.team_id().map(|t| t.map(txt)).ok(), d.header().n_special_slots.get(BigEndian), d.header().n_code_slots.get(BigEndian)
                            ));
                            for k in 0..d.header().n_code_slots.get(BigEndian).min(300) {
                                obs.put(format!("cd[{i}].h[{k}]"), d.code_hash(k).map(hex).unwrap_or_else(|_| ERR.into()));
                            }
                            for k in 0..d.header().n_special_slots.get(BigEndian).min(20) + 2 {
                                obs.put(format!("cd[{i}].s[{k}]"), d.special_hash(macho::CsSlot(k)).map(hex).unwrap_or_else(|_| ERR.into()));
                            }
                        }
                    }
                    Err(_) => obs.put("cs", ERR),
                }
            }
        }
        V::Dylib(x) | V::IdDylib(x) => {
            obs.put("v", format!("{} {:#x} {:#x} {}", x.dylib.timestamp.get(e), x.dylib.current_version.get(e).0, x.dylib.compatibility_version.get(e).0, s(x.dylib.name)));
            obs.put("useflags", match c.dylib_use_flags(e, x) {
                Ok(f) => format!("{f:?}"),
                Err(_) => ERR.into(),
            });
        }
        V::LoadDylinker(x) | V::IdDylinker(x) | V::DyldEnvironment(x) => obs.put("v", s(x.name)),
        V::Rpath(x) => obs.put("v", s(x.path)),
        V::SubFramework(x) => obs.put("v", s(x.umbrella)),
        V::SubUmbrella(x) => obs.put("v", s(x.sub_umbrella)),
        V::SubClient(x) => obs.put("v", s(x.client)),
        V::SubLibrary(x) => obs.put("v", s(x.sub_library)),
        V::FilesetEntry(x) => obs.put("v", format!("{:#x} {:#x} {}", x.vmaddr.get(e), x.fileoff.get(e), s(x.entry_id))),
        V::EntryPoint(x) => obs.put("v", format!("{:#x} {:#x}", x.entryoff.get(e), x.stacksize.get(e))),
        V::SourceVersion(x) => obs.put("v", format!("{:?}", x.version.get(e))),
        V::VersionMin(x) => obs.put("v", format!("{:?} {:?}", x.version.get(e), x.sdk.get(e))),
        V::Uuid(x) => obs.put("v", hex(&x.uuid)),
        V::Note(x) => obs.put("v", format!("{} {:#x} {:#x}", txt(&x.data_owner), x.offset.get(e), x.size.get(e))),
        V::BuildVersion(x, d) => {
            obs.put("v", format!("{:?} {:?} {:?} {}", x.platform.get(e), x.minos.get(e), x.sdk.get(e), x.ntools.get(e)));
            match x.tools(e, d) {
                Ok(t) => {
                    for (i, t) in t.iter().enumerate() {
                        obs.put(format!("tool[{i}]"), format!("{:?} {:?}", t.tool.get(e), t.version.get(e)));
                    }
                }
                Err(_) => obs.put("tool", ERR),
            }
        }
        _ => {}
    }
}

fn fixups<'d, Mach: MachHeader<Endian = Endianness>, R: ReadRef<'d>>(file: &MachOFile<'d, Mach, R>, obs: &mut Obs) {
    let e = file.endian();
    let data = file.data();
    let text = file.segments().find(|s| s.name_bytes() == Ok(Some(b"__TEXT"))).map(|s| s.address());
    let mut segs = Vec::new();
    let mut cmd = None;
    if let Ok(mut it) = file.macho_load_commands() {
        while let Ok(Some(c)) = it.next() {
            if let Ok(Some((seg, _))) = Mach::Segment::from_command(c) {
                segs.push(seg.data(e, data).ok());
            }
            if let Ok(Some(x)) = c.dyld_chained_fixups() {
                cmd = Some(x);
            }
        }
    }
    let Some(x) = cmd else { return };
    let Some(text) = text else { return obs.put("fixups", NONE) };
    let f = match x.chained_fixups(e, data) {
        Ok(f) => f,
        Err(_) => return obs.put("fixups", ERR),
    };
    obs.put("fixups", format!("{} {} {:?}", f.header().imports_count.get(e), f.header().starts_offset.get(e), f.header().imports_format.get(e)));
    match f.imports(e) {
        Ok(mut it) => list(obs, "fiximp", || it.next(), |i| format!("{:?} {} {} {}", i.dylib, i.weak_import, i.addend, txt(i.name))),
        Err(_) => obs.put("fiximp", ERR),
    }
    let mut ss = match f.segments(e) {
        Ok(s) => s,
        Err(_) => return obs.put("fixseg", ERR),
    };
    let mut i = 0;
    loop {
        match ss.next() {
            Ok(Some(s)) => {
                obs.put(format!("fixseg[{i}]"), format!("{} page {} fmt {:?} off {:#x} n {}", s.index(), s.header().page_size.get(e), s.header().pointer_format.get(e), s.header().segment_offset.get(e), s.header().page_count.get(e)));
                match segs.get(s.index() as usize) {
                    Some(Some(d)) => {
                        let mut it = s.fixups(e, text, d);
                        list(obs, &format!("fix[{i}]"), || it.next(), |(o, f)| format!("{o:#x} {f:?}"));
                    }
                    _ => obs.put(format!("fix[{i}]"), ERR),
                }
            }
            Ok(None) => break,
            Err(_) => {
                obs.put(format!("fixseg[{i}]"), ERR);
                obs.ends("ss.next()", || ss.next().map(|x| x.is_some()));
                break;
            }
        }
        i += 1;
        if obs.over(i, "fixup segments") {
            break;
        }
    }
}
