//! Any supported file - object, archive, import file, fat binary, dyld cache - as a set of independent queries.
use crate::observe::*;
use crate::{sp_elf, sp_macho, sp_pe, sp_xcoff};
use object::read::archive::ArchiveFile;
use object::read::coff::ImportFile;
use object::read::macho::{DyldCache, MachOFatFile32, MachOFatFile64};
use object::read::*;
use object::{Endianness, FileKind};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum VQ {
    Obj(Q),
    Part(usize),
}

pub enum View<'d, R: ReadRef<'d>> {
    Obj(R, Box<File<'d, R>>),
    Archive(R, ArchiveFile<'d, R>),
    Import(ImportFile<'d>),
    Fat32(R, MachOFatFile32<'d>),
    Fat64(R, MachOFatFile64<'d>),
    Dyld(R, Box<DyldCache<'d, Endianness, R>>),
}

pub fn special<'d, R: ReadRef<'d>>(f: &File<'d, R>, data: R, k: usize, obs: &mut Obs) {
    match f {
        File::Coff(f) => sp_pe::coff(f, data, k, obs),
        File::CoffBig(f) => sp_pe::coff(f, data, k, obs),
        File::Elf32(f) => sp_elf::special(f, k, obs),
        File::Elf64(f) => sp_elf::special(f, k, obs),
        File::MachO32(f) => sp_macho::special(f, k, obs),
        File::MachO64(f) => sp_macho::special(f, k, obs),
        File::Pe32(f) => sp_pe::special(f, k, obs),
        File::Pe64(f) => sp_pe::special(f, k, obs),
        File::Xcoff32(f) => sp_xcoff::special(f, data, k, obs),
        File::Xcoff64(f) => sp_xcoff::special(f, data, k, obs),
        _ => {}
    }
}

pub fn obj_query<'d, R: ReadRef<'d>>(f: &File<'d, R>, data: R, q: Q, obs: &mut Obs) {
    match q {
        Q::Special(k) => special(f, data, k, obs),
        q => query(f, q, obs),
    }
}

/// Everything about an object.
pub fn whole<'d, R: ReadRef<'d>>(f: &File<'d, R>, data: R, obs: &mut Obs) {
    for q in plan(f, 200) {
        obj_query(f, data, q, obs);
    }
}

fn nested(data: &[u8], obs: &mut Obs) {
    match FileKind::parse(data) {
        Ok(FileKind::CoffImport) => match ImportFile::parse(data) {
            Ok(f) => import(&f, obs),
            Err(_) => obs.put("import", ERR),
        },
        Ok(_) => match File::parse(data) {
            Ok(f) => {
                for q in plan(&f, 8).into_iter().take(40) {
                    obj_query(&f, data, q, obs);
                }
            }
            Err(_) => obs.put("obj", ERR),
        },
        Err(_) => obs.put("kind", ERR),
    }
}

fn import(f: &ImportFile<'_>, obs: &mut Obs) {
    obs.put("import", format!(
        "{:?} {:?} {} {} {:?}", f.architecture(), f.sub_architecture(), txt(f.symbol()), txt(f.dll()), f.import_type()
    ));
    obs.put("import.name", match f.import() {
        object::read::coff::ImportName::Ordinal(o) => format!("@{o}"),
        object::read::coff::ImportName::Name(n) => txt(n),
    });
}

impl<'d, R: ReadRef<'d>> View<'d, R> {
    pub fn open(data: R, subs: &[R]) -> Result<Self> {
        let kind = FileKind::parse(data)?;
        Ok(match kind {
            FileKind::Archive => View::Archive(data, ArchiveFile::parse(data)?),
            FileKind::CoffImport => View::Import(ImportFile::parse(data)?),
            FileKind::MachOFat32 => View::Fat32(data, MachOFatFile32::parse(data)?),
            FileKind::MachOFat64 => View::Fat64(data, MachOFatFile64::parse(data)?),
            FileKind::DyldCache => View::Dyld(data, Box::new(DyldCache::parse(data, subs)?)),
            _ => View::Obj(data, Box::new(File::parse(data)?)),
        })
    }
    pub fn kind(&self) -> &'static str {
        match self {
            View::Obj(_, f) => match **f {
                File::Coff(_) => "coff",
                File::CoffBig(_) => "coff-big",
                File::Elf32(_) => "elf32",
                File::Elf64(_) => "elf64",
                File::MachO32(_) => "macho32",
                File::MachO64(_) => "macho64",
                File::Pe32(_) => "pe32",
                File::Pe64(_) => "pe64",
                File::Wasm(_) => "wasm",
                File::Xcoff32(_) => "xcoff32",
                File::Xcoff64(_) => "xcoff64",
                _ => "other",
            },
            View::Archive(..) => "archive",
            View::Import(..) => "coff-import",
            View::Fat32(..) => "fat32",
            View::Fat64(..) => "fat64",
            View::Dyld(..) => "dyld-cache",
        }
    }
    pub fn plan(&self) -> Vec<VQ> {
        let parts = match self {
            View::Obj(_, f) => return plan(&**f, 200).into_iter().map(VQ::Obj).collect(),
            View::Archive(_, a) => 3 + a.members().take(200).filter(|m| m.is_ok()).count(),
            View::Import(_) => 1,
            View::Fat32(_, f) => 1 + f.arches().len().min(50),
            View::Fat64(_, f) => 1 + f.arches().len().min(50),
            View::Dyld(_, c) => 4 + c.images().take(50).count(),
        };
        (0..parts).map(VQ::Part).collect()
    }
    pub fn query(&self, q: VQ, obs: &mut Obs) {
        match (self, q) {
            (View::Obj(d, f), VQ::Obj(q)) => obj_query(&**f, *d, q, obs),
            (View::Archive(d, a), VQ::Part(k)) => archive_part(a, *d, k, obs),
            (View::Import(f), VQ::Part(_)) => import(f, obs),
            (View::Fat32(d, f), VQ::Part(k)) => fat(f.arches(), *d, k, obs),
            (View::Fat64(d, f), VQ::Part(k)) => fat(f.arches(), *d, k, obs),
            (View::Dyld(d, c), VQ::Part(k)) => dyld(c, *d, k, obs),
            _ => {}
        }
    }
    pub fn all(&self, obs: &mut Obs) {
        for q in self.plan() {
            self.query(q, obs);
        }
    }
}

fn member_info(m: &object::read::archive::ArchiveMember<'_>) -> String {
    format!(
        "{} date {:?} uid {:?} gid {:?} mode {:?} size {} range {:?} thin {} hdr {} aix {}",
        txt(m.name()), m.date(), m.uid(), m.gid(), m.mode(), m.size(), m.file_range(), m.is_thin(), m.header().is_some(), m.aix_header().is_some()
    )
}

fn archive_part<'d, R: ReadRef<'d>>(a: &ArchiveFile<'d, R>, data: R, k: usize, obs: &mut Obs) {
    match k {
        0 => obs.put("ar", format!("{:?} thin={}", a.kind(), a.is_thin())),
        1 => {
            for (n, m) in a.members().enumerate() {
                match m {
                    Ok(m) => obs.put(format!("m[{n}]"), member_info(&m)),
                    Err(_) => obs.put(format!("m[{n}]"), ERR),
                }
                if obs.over(n, "members") {
                    break;
                }
            }
        }
        2 => match a.symbols() {
            Ok(None) => obs.put("syms", NONE),
            Err(_) => obs.put("syms", ERR),
            Ok(Some(it)) => {
                for (n, s) in it.enumerate() {
                    match s {
                        Ok(s) => {
                            let m = match a.member(s.offset()) {
                                Ok(m) => txt(m.name()),
                                Err(_) => ERR.into(),
                            };
                            obs.put(format!("s[{n}]"), format!("{} @{} in {}", txt(s.name()), s.offset().0, m));
                        }
                        Err(_) => obs.put(format!("s[{n}]"), ERR),
                    }
                    if obs.over(n, "archive symbols") {
                        break;
                    }
                }
            }
        },
        k => {
            let k = k - 3;
            if let Some(Ok(m)) = a.members().nth(k) {
                obs.scope(format!("m[{k}]."), |obs| match m.data(data) {
                    Ok(d) => {
                        obs.put("data", hex(d));
                        nested(d, obs);
                    }
                    Err(_) => obs.put("data", ERR),
                });
            }
        }
    }
}

fn fat<'d, R: ReadRef<'d>, F: object::read::macho::FatArch>(arches: &'d [F], data: R, k: usize, obs: &mut Obs) {
    if k == 0 {
        for (n, a) in arches.iter().enumerate().take(200) {
            obs.put(format!("arch[{n}]"), format!("{:?} {:#x} {:#x} {:?} al {}", a.architecture(), a.cputype().0, a.cpusubtype().0, a.file_range(), a.align()));
        }
    } else if let Some(a) = arches.get(k - 1) {
        obs.scope(format!("arch[{}].", k - 1), |obs| match a.data(data) {
            Ok(d) => {
                obs.put("data", hex(d));
                nested(d, obs);
            }
            Err(_) => obs.put("data", ERR),
        });
    }
}

fn dyld<'d, R: ReadRef<'d>>(c: &DyldCache<'d, Endianness, R>, data: R, k: usize, obs: &mut Obs) {
    match k {
        0 => {
            obs.put("dc", format!("{:?} {:?} {}", c.architecture(), c.endianness(), c.is_little_endian()));
            match DyldCache::<Endianness, R>::subcache_suffixes(data) {
                Ok(v) => obs.put("suffixes", format!("{v:?}")),
                Err(_) => obs.put("suffixes", ERR),
            }
        }
        1 => {
            for (n, m) in c.mappings().enumerate() {
                obs.put(format!("map[{n}]"), format!("{:#x}+{:#x} file {:#x} {:#x} {:#x}", m.address(), m.size(), m.file_offset(), m.max_prot().0, m.init_prot().0));
                obs.res(format!("map[{n}].data"), m.data(), hex);
                for a in [m.address(), m.address().wrapping_add(m.size()).wrapping_sub(1), m.address().wrapping_add(m.size()), m.address().wrapping_add(m.size() / 2)] {
                    obs.put(format!("at {a:#x}"), match c.data_and_offset_for_address(a) {
                        Some((d, o)) => format!("{o:#x} {}", match d.read_bytes_at(o, 4) {
                            Ok(b) => hex(b),
                            Err(()) => ERR.into(),
                        }),
                        None => NONE.into(),
                    });
                }
                if obs.over(n, "mappings") {
                    break;
                }
            }
        }
        2 => {
            for (n, m) in c.mappings().enumerate() {
                match m.relocations() {
                    Ok(it) => {
                        for (i, r) in it.enumerate() {
                            match r {
                                Ok(r) => obs.put(format!("map[{n}].rel[{i}]"), format!("{:#x} {:#x} {:?}", r.offset, r.value, r.auth)),
                                Err(_) => obs.put(format!("map[{n}].rel[{i}]"), ERR),
                            }
                            if obs.over(i, "cache relocations") {
                                break;
                            }
                        }
                    }
                    Err(_) => obs.put(format!("map[{n}].rel"), ERR),
                }
                if obs.over(n, "mappings") {
                    break;
                }
            }
        }
        3 => {
            for (n, i) in c.images().enumerate() {
                obs.put(format!("img[{n}]"), match i.path() {
                    Ok(p) => txt(p.as_bytes()),
                    Err(_) => ERR.into(),
                });
                obs.put(format!("img[{n}].off"), match i.image_data_and_offset() {
                    Ok((d, o)) => format!("{o:#x} {}", match d.read_bytes_at(o, 8) {
                        Ok(b) => hex(b),
                        Err(()) => ERR.into(),
                    }),
                    Err(_) => ERR.into(),
                });
                if obs.over(n, "images") {
                    break;
                }
            }
        }
        k => {
            if let Some(i) = c.images().nth(k - 4) {
                obs.scope(format!("img[{}].", k - 4), |obs| match i.parse_object() {
                    Ok(f) => {
                        for q in plan(&f, 20) {
                            if !matches!(q, Q::Special(_)) {
                                query(&f, q, obs);
                            }
                        }
                    }
                    Err(_) => obs.put("obj", ERR),
                });
            }
        }
    }
}
