//! The PE image writer (C11): random layouts, emitted, read back, and checked against the format's rules.
use crate::choices::fnv;
use crate::ctx::{Ctx, R, violation};
use crate::ensure;
use crate::sc_emit::Subject;
use crate::simio::{SourceCfg, through_stream};
use object::LittleEndian as LE;
use object::pe;
use object::read::pe::{ImageNtHeaders, ImageOptionalHeader, PeFile};
use object::read::{Object, ObjectSection, ObjectSegment, ReadRef};
use object::write::WritableBuffer;
use object::write::pe::{NtHeaders, SectionRange, Writer};

#[derive(Clone, Debug)]
enum Stub {
    None,
    Fixed,
    Custom(Vec<u8>, u32),
}

#[derive(Clone, Debug)]
enum Item {
    /// name, characteristics, virtual size, data
    Section { kind: u8, name: [u8; 8], ch: u32, vsize: u32, data: Vec<u8> },
    Relocs,
    /// leave a hole in the address space
    VirtualGap(u32),
    VirtualUntil(u32),
    /// bytes in the file that belong to no section
    Loose(Vec<u8>, u32),
    Certificates(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Plan {
    is64: bool,
    salign: u32,
    falign: u32,
    stub: Stub,
    dirs: usize,
    set_dirs: Vec<(usize, u32, u32)>,
    items: Vec<Item>,
    relocs: Vec<(u32, u16)>,
    relocs_before: usize,
    nt: NtHeaders,
}

/// What the writer answered while reserving.
#[derive(Default, Debug)]
struct Said {
    ranges: Vec<Option<SectionRange>>,
    loose: Vec<u32>,
    virtual_len: u32,
    len: u64,
    written: u64,
    has_relocs: bool,
    nt_offset: u32,
}

fn name(ctx: &mut Ctx) -> [u8; 8] {
    let mut n = [0u8; 8];
    let len = ctx.c.range(1, 8) as usize;
    for (i, b) in n.iter_mut().take(len).enumerate() {
        *b = if i == 0 { b'.' } else { b'a' + ctx.c.below(26) as u8 };
    }
    n
}

impl Plan {
    pub fn gen_plan(ctx: &mut Ctx) -> Plan {
        let is64 = ctx.c.chance(1, 2);
        let falign = 1u32 << ctx.c.range(2, 12);
        let salign = (1u32 << ctx.c.range(2, 16)).max(falign);
        let stub = match ctx.c.below(3) {
            0 => Stub::None,
            1 => Stub::Fixed,
            _ => {
                let n = ctx.c.size(400) as usize;
                Stub::Custom(ctx.c.bytes(n), 1 << ctx.c.below(6))
            }
        };
        let dirs = if ctx.c.chance(3, 4) { 16 } else { ctx.c.below(20) as usize };
        let mut items = Vec::new();
        let mut used = [false; 8];
        let mut certs = false;
        let n = ctx.c.size(24);
        let max = if ctx.c.chance(1, 20) { 200_000 } else { 6000 };
        for _ in 0..n {
            let it = match ctx.c.below(16) {
                0 => Item::VirtualGap(ctx.c.size(100_000) as u32),
                1 => Item::VirtualUntil(ctx.c.size(100_000) as u32),
                2 => {
                    let n = ctx.c.size(900) as usize;
                    Item::Loose(ctx.c.bytes(n), 1 << ctx.c.below(7))
                }
                3 if dirs > 4 && !certs => {
                    certs = true;
                    let n = ctx.c.size(900) as usize;
                    Item::Certificates(ctx.c.bytes(n))
                }
                4 if dirs > 5 && !used[5] => {
                    used[5] = true;
                    Item::Relocs
                }
                k => {
                    let len = ctx.c.size(max) as usize;
                    let data = ctx.c.bytes(len);
                    // 0 text, 1 data, 2 rdata, 3 bss, 4 idata, 5 edata, 6 pdata, 7 xdata, 8 rsrc, 9.. custom
                    let mut kind = if k < 6 { 9 } else { ctx.c.below(11) as u8 };
                    let (dir, slot) = match kind {
                        4 => (1, 0),
                        5 => (0, 1),
                        6 => (3, 2),
                        8 => (2, 3),
                        _ => (usize::MAX, 0),
                    };
                    if dir != usize::MAX {
                        if dirs <= dir || used[slot] {
                            kind = 9;
                        } else {
                            used[slot] = true;
                        }
                    }
                    let vsize = match (kind, ctx.c.below(4)) {
                        (1 | 9 | 10, 0) => len as u32 + ctx.c.size(100_000) as u32,
                        (1 | 9 | 10, 1) => (len as u32).saturating_sub(ctx.c.size(64) as u32),
                        (3, _) => ctx.c.size(100_000) as u32,
                        _ => len as u32,
                    };
                    let ch = (ctx.c.u64() as u32) & 0xf3f0_0ff8 & !0x0fff_0000 | ctx.c.below(8) as u32 * 0x20;
                    let data = if kind == 3 { Vec::new() } else { data };
                    Item::Section { kind, name: name(ctx), ch, vsize, data }
                }
            };
            items.push(it);
        }
        // Base relocations, page by page.
        let mut relocs = Vec::new();
        if items.iter().any(|i| matches!(i, Item::Relocs)) {
            let mut page = ctx.c.below(64) as u32;
            for _ in 0..ctx.c.size(12) {
                let n = 1 + ctx.c.size(40);
                for _ in 0..n {
                    let typ = *ctx.c.pick(&[3u16, 10, 10, 1, 2, 4, 5, 7, 9, 15, 0]);
                    let off = ctx.c.below(4096) as u32;
                    relocs.push((page << 12 | off, typ));
                }
                page += 1 + ctx.c.size(5000) as u32;
            }
        }
        let relocs_before = items.iter().position(|i| matches!(i, Item::Relocs)).unwrap_or(0);
        let mut set_dirs = Vec::new();
        for _ in 0..ctx.c.below(4) {
            if dirs > 0 {
                let i = ctx.c.idx(dirs);
                if ![0, 1, 2, 3, 4, 5].contains(&i) {
                    set_dirs.push((i, ctx.c.u64() as u32, ctx.c.u64() as u32));
                }
            }
        }
        let w = |ctx: &mut Ctx| -> u64 {
            let v = ctx.c.u64();
            if is64 { v >> ctx.c.below(64) } else { v & 0xffff_ffff }
        };
        let nt = NtHeaders {
            machine: pe::Machine(*ctx.c.pick(&[0x8664, 0x14c, 0xaa64, 0x1c4, 0xa641, 0x1234])),
            time_date_stamp: ctx.c.u64() as u32,
            characteristics: pe::FileFlags(ctx.c.u64() as u16),
            major_linker_version: ctx.c.u64() as u8,
            minor_linker_version: ctx.c.u64() as u8,
            address_of_entry_point: ctx.c.u64() as u32,
            image_base: w(ctx),
            major_operating_system_version: ctx.c.u64() as u16,
            minor_operating_system_version: ctx.c.u64() as u16,
            major_image_version: ctx.c.u64() as u16,
            minor_image_version: ctx.c.u64() as u16,
            major_subsystem_version: ctx.c.u64() as u16,
            minor_subsystem_version: ctx.c.u64() as u16,
            subsystem: pe::Subsystem(ctx.c.u64() as u16),
            dll_characteristics: pe::DllFlags(ctx.c.u64() as u16),
            size_of_stack_reserve: w(ctx),
            size_of_stack_commit: w(ctx),
            size_of_heap_reserve: w(ctx),
            size_of_heap_commit: w(ctx),
        };
        Plan { is64, salign, falign, stub, dirs, set_dirs, items, relocs, relocs_before, nt }
    }

    fn sections(&self) -> usize {
        self.items.iter().filter(|i| matches!(i, Item::Section { .. } | Item::Relocs)).count()
    }

    /// Drive the real writer: reserve everything, then write everything.
    fn run(&self, b: &mut dyn WritableBuffer) -> Result<Said, String> {
        let mut said = Said::default();
        let mut w = Writer::new(self.is64, self.salign, self.falign, b);
        match &self.stub {
            Stub::None => w.reserve_dos_header(),
            Stub::Fixed => w.reserve_dos_header_and_stub(),
            Stub::Custom(d, a) => {
                w.reserve_dos_header();
                w.reserve(d.len() as u32, *a);
            }
        }
        w.reserve_nt_headers(self.dirs);
        said.nt_offset = w.nt_headers_offset();
        w.reserve_section_headers(self.sections() as u16);
        let mut loose = Vec::new();
        for (i, it) in self.items.iter().enumerate() {
            let mut range = None;
            match it {
                Item::Section { kind, name, ch, vsize, data } => {
                    let n = data.len() as u32;
                    range = Some(match kind {
                        0 => w.reserve_text_section(n),
                        1 => w.reserve_data_section(*vsize, n),
                        2 => w.reserve_rdata_section(n),
                        3 => w.reserve_bss_section(*vsize),
                        4 => w.reserve_idata_section(n),
                        5 => w.reserve_edata_section(n),
                        6 => w.reserve_pdata_section(n),
                        7 => w.reserve_xdata_section(n),
                        8 => w.reserve_rsrc_section(n),
                        _ => w.reserve_section(*name, pe::SectionFlags(*ch), *vsize, n),
                    });
                }
                Item::Relocs => {
                    for (va, t) in &self.relocs {
                        w.add_reloc(*va, pe::BaseRelocationType(*t));
                    }
                    said.has_relocs = w.has_relocs();
                    range = Some(w.reserve_reloc_section());
                }
                Item::VirtualGap(n) => {
                    w.reserve_virtual(*n);
                }
                Item::VirtualUntil(n) => {
                    let to = w.virtual_len() + *n;
                    w.reserve_virtual_until(to);
                }
                Item::Loose(d, a) => loose.push((i, w.reserve(d.len() as u32, *a))),
                Item::Certificates(d) => w.reserve_certificate_table(d.len() as u32),
            }
            said.ranges.push(range);
        }
        said.loose = loose.iter().map(|l| l.1).collect();
        said.virtual_len = w.virtual_len();
        said.len = w.reserved_len();
        for (i, v, s) in &self.set_dirs {
            w.set_data_directory(*i, *v, *s);
        }
        // Write.
        match &self.stub {
            Stub::None => w.write_empty_dos_header(),
            Stub::Fixed => w.write_dos_header_and_stub(),
            Stub::Custom(d, a) => {
                let mut r = w.write_empty_dos_header();
                if r.is_ok() && !d.is_empty() {
                    w.write_align(*a);
                    w.write(d);
                    r = Ok(());
                }
                r
            }
        }
        .map_err(|e| e.to_string())?;
        w.write_nt_headers(self.nt.clone());
        w.write_section_headers();
        for (i, it) in self.items.iter().enumerate() {
            match it {
                Item::Section { data, .. } => w.write_section(said.ranges[i].as_ref().unwrap().file_offset, data),
                Item::Relocs => w.write_reloc_section(),
                Item::Loose(d, _) => {
                    let at = loose.iter().find(|l| l.0 == i).unwrap().1;
                    if !d.is_empty() {
                        w.pad_until(at);
                        w.write(d);
                    }
                }
                Item::Certificates(d) => w.write_certificate_table(d),
                _ => {}
            }
        }
        // The headers are padded up to the file alignment even if nothing follows them.
        if w.len() < w.reserved_len() {
            w.write_file_align();
        }
        said.written = w.len();
        Ok(said)
    }
}

impl Subject for Plan {
    fn name(&self) -> String {
        format!("PE image, {} bits, alignments {:#x}/{:#x}", if self.is64 { 64 } else { 32 }, self.salign, self.falign)
    }
    fn emit(&self, b: &mut dyn WritableBuffer) -> Result<(), String> {
        self.run(b).map(|_| ())
    }
    fn valid(&self) -> Option<bool> {
        Some(true)
    }
}

pub fn subject(ctx: &mut Ctx) -> R<Box<dyn Subject>> {
    Ok(Box::new(Plan::gen_plan(ctx)))
}

fn up(v: u64, a: u32) -> u64 {
    v.div_ceil(a as u64) * a as u64
}

fn check<'d, Pe: ImageNtHeaders, S: ReadRef<'d>>(p: &Plan, said: &Said, bytes: &[u8], f: &PeFile<'d, Pe, S>) -> R {
    macro_rules! eq {
        ($what:expr, $got:expr, $want:expr) => {{
            let (g, w) = ($got, $want);
            ensure!(g == w, "image-differs", "{}: {} is {:x?}, requested {:x?}", p.name(), $what, g, w);
        }};
    }
    let nt = f.nt_headers();
    let fh = nt.file_header();
    let o = nt.optional_header();
    let n = &p.nt;
    eq!("signature", nt.signature(), 0x4550);
    eq!("e_lfanew", f.dos_header().nt_headers_offset(), said.nt_offset);
    eq!("nt header alignment", said.nt_offset % 8, 0);
    let dos = 64usize;
    match &p.stub {
        Stub::None => eq!("nt header offset", said.nt_offset as usize, dos),
        Stub::Fixed => {
            eq!("nt header offset", said.nt_offset as usize, 128);
            eq!("stub", &bytes[64..70], b"\x0e\x1f\xba\x0e\x00\xb4");
        }
        Stub::Custom(d, a) => {
            if !d.is_empty() {
                let at = up(64, *a) as usize;
                eq!("stub", &bytes[at..at + d.len()], &d[..]);
            }
        }
    }
    eq!("machine", fh.machine.get(LE), n.machine);
    eq!("time stamp", fh.time_date_stamp.get(LE), n.time_date_stamp);
    eq!("characteristics", fh.characteristics.get(LE), n.characteristics);
    eq!("symbols", (fh.pointer_to_symbol_table.get(LE), fh.number_of_symbols.get(LE)), (0, 0));
    eq!("section count", fh.number_of_sections.get(LE) as usize, p.sections());
    eq!("optional header size", fh.size_of_optional_header.get(LE) as usize, if p.is64 { 112 } else { 96 } + 8 * p.dirs);
    eq!("magic", o.magic(), if p.is64 { 0x20b } else { 0x10b });
    eq!("linker", (o.major_linker_version(), o.minor_linker_version()), (n.major_linker_version, n.minor_linker_version));
    eq!("entry", o.address_of_entry_point(), n.address_of_entry_point);
    eq!("entry()", f.entry(), n.image_base.wrapping_add(n.address_of_entry_point as u64));
    eq!("image base", o.image_base(), n.image_base);
    eq!("relative_address_base", f.relative_address_base(), n.image_base);
    eq!("alignments", (o.section_alignment(), o.file_alignment()), (p.salign, p.falign));
    eq!("os", (o.major_operating_system_version(), o.minor_operating_system_version()), (n.major_operating_system_version, n.minor_operating_system_version));
    eq!("image version", (o.major_image_version(), o.minor_image_version()), (n.major_image_version, n.minor_image_version));
    eq!("subsystem version", (o.major_subsystem_version(), o.minor_subsystem_version()), (n.major_subsystem_version, n.minor_subsystem_version));
    eq!("subsystem", (o.subsystem(), o.dll_characteristics()), (n.subsystem, n.dll_characteristics));
    eq!("stack", (o.size_of_stack_reserve(), o.size_of_stack_commit()), (n.size_of_stack_reserve, n.size_of_stack_commit));
    eq!("heap", (o.size_of_heap_reserve(), o.size_of_heap_commit()), (n.size_of_heap_reserve, n.size_of_heap_commit));
    eq!("reserved fields", (o.win32_version_value(), o.loader_flags()), (0, 0));
    eq!("directory count", o.number_of_rva_and_sizes() as usize, p.dirs);

    // Layout model.
    let hdr_end = said.nt_offset as u64 + 24 + fh.size_of_optional_header.get(LE) as u64 + 40 * p.sections() as u64;
    eq!("size of headers", o.size_of_headers() as u64, up(hdr_end, p.falign));
    let mut va = up(o.size_of_headers() as u64, p.salign);
    let mut pos = o.size_of_headers() as u64;
    let mut dirs = vec![(0u32, 0u32); p.dirs];
    let (mut code, mut data_len, mut bss) = (0u64, 0u64, 0u64);
    let (mut base_code, mut base_data) = (0u32, 0u32);
    let headers: Vec<_> = f.section_table().iter().collect();
    let sections: Vec<_> = f.sections().collect();
    let segments: Vec<_> = f.segments().collect();
    eq!("sections", (headers.len(), sections.len(), segments.len()), (p.sections(), p.sections(), p.sections()));
    let mut k = 0;
    let mut li = 0;
    for (i, it) in p.items.iter().enumerate() {
        let (nm, ch, vsize, bytes_want, dir): (&[u8], u32, u32, Vec<u8>, Option<usize>) = match it {
            Item::VirtualGap(g) => {
                va = up(va + *g as u64, p.salign);
                continue;
            }
            Item::VirtualUntil(g) => {
                va = up(va + *g as u64, p.salign);
                continue;
            }
            Item::Loose(d, a) => {
                if !d.is_empty() {
                    pos = up(pos, *a);
                    eq!("reserved offset", said.loose[li] as u64, pos);
                    eq!("reserved bytes", &bytes[pos as usize..pos as usize + d.len()], &d[..]);
                    pos += d.len() as u64;
                }
                li += 1;
                continue;
            }
            Item::Certificates(d) => {
                let n = up(d.len() as u64, 8);
                if n > 0 {
                    pos = up(pos, 8);
                    eq!("certificates", &bytes[pos as usize..pos as usize + d.len()], &d[..]);
                    ensure!(bytes[pos as usize + d.len()..(pos + n) as usize].iter().all(|b| *b == 0), "image-differs", "certificate padding");
                }
                dirs[4] = (pos as u32, n as u32);
                pos += n;
                continue;
            }
            Item::Section { kind, name, ch, vsize, data } => {
                let n = data.len() as u32;
                let (nm, ch, vs, dir): (&[u8], u32, u32, Option<usize>) = match kind {
                    0 => (b".text", 0x6000_0020, n, None),
                    1 => (b".data", 0xc000_0040, *vsize, None),
                    2 => (b".rdata", 0x4000_0040, n, None),
                    3 => (b".bss", 0xc000_0080, *vsize, None),
                    4 => (b".idata", 0xc000_0040, n, Some(1)),
                    5 => (b".edata", 0x4000_0040, n, Some(0)),
                    6 => (b".pdata", 0x4000_0040, n, Some(3)),
                    7 => (b".xdata", 0x4000_0040, n, None),
                    8 => (b".rsrc", 0x4000_0040, n, Some(2)),
                    _ => (name, *ch, *vsize, None),
                };
                (nm, ch, vs, data.clone(), dir)
            }
            Item::Relocs => {
                let d = reloc_bytes(&p.relocs);
                (b".reloc", 0x4200_0040, d.len() as u32, d, Some(5))
            }
        };
        let nm = &nm[..nm.iter().position(|b| *b == 0).unwrap_or(nm.len())];
        let what = format!("section {} {}", k + 1, String::from_utf8_lossy(nm));
        let r = said.ranges[i].as_ref().unwrap();
        let raw = up(bytes_want.len() as u64, p.falign);
        let off = if raw == 0 { 0 } else { up(pos, p.falign) };
        eq!(format!("{what}: reserved range"), (r.virtual_address as u64, r.virtual_size, r.file_offset as u64, r.file_size as u64), (va, vsize, off, raw));
        let h = headers[k];
        eq!(format!("{what}: address, size"), (h.virtual_address.get(LE) as u64, h.virtual_size.get(LE)), (va, vsize));
        eq!(format!("{what}: file range"), (h.pointer_to_raw_data.get(LE) as u64, h.size_of_raw_data.get(LE) as u64), (off, raw));
        eq!(format!("{what}: characteristics"), h.characteristics.get(LE).0, ch);
        eq!(format!("{what}: name"), h.raw_name(), nm);
        eq!(
            format!("{what}: relocations"),
            (h.pointer_to_relocations.get(LE), h.pointer_to_linenumbers.get(LE), h.number_of_relocations.get(LE), h.number_of_linenumbers.get(LE)),
            (0, 0, 0, 0)
        );
        if raw > 0 {
            ensure!(off + raw <= bytes.len() as u64, "image-differs", "{}: {what} ends at {:#x} past the end {:#x}", p.name(), off + raw, bytes.len());
            let got = &bytes[off as usize..(off + raw) as usize];
            eq!(format!("{what}: contents"), &got[..bytes_want.len()], &bytes_want[..]);
            ensure!(got[bytes_want.len()..].iter().all(|b| *b == 0), "image-differs", "{}: {what}: padding is not zero", p.name());
            pos = off + raw;
        }
        // The unified view.
        let s = &sections[k];
        eq!(format!("{what}: index"), s.index().0, k + 1);
        eq!(format!("{what}: name()"), s.name_bytes().ok(), Some(nm));
        eq!(format!("{what}: address()"), s.address(), n.image_base.wrapping_add(va));
        eq!(format!("{what}: size()"), s.size(), vsize as u64);
        let mapped = raw.min(vsize as u64) as usize;
        let mut mem = bytes_want.clone();
        mem.resize(raw as usize, 0);
        mem.truncate(mapped);
        eq!(format!("{what}: data()"), s.data().ok(), Some(&mem[..]));
        let g = &segments[k];
        eq!(format!("{what}: segment"), (g.address(), g.size(), g.data().ok()), (n.image_base.wrapping_add(va), vsize as u64, Some(&mem[..])));
        // Optional header accounting.
        let av = up(vsize as u64, p.falign);
        if ch & 0x20 != 0 {
            if base_code == 0 {
                base_code = va as u32;
            }
            code += av;
        } else if ch & 0x40 != 0 {
            if base_data == 0 {
                base_data = va as u32;
            }
            data_len += av;
        } else if ch & 0x80 != 0 {
            if base_data == 0 {
                base_data = va as u32;
            }
            bss += av;
        }
        if let Some(d) = dir {
            dirs[d] = (va as u32, bytes_want.len() as u32);
        }
        va = up(va + vsize as u64, p.salign);
        k += 1;
    }
    eq!("size of code", o.size_of_code() as u64, code);
    eq!("size of initialized data", o.size_of_initialized_data() as u64, data_len);
    eq!("size of uninitialized data", o.size_of_uninitialized_data() as u64, bss);
    eq!("base of code", o.base_of_code(), base_code);
    eq!("base of data", o.base_of_data(), (!p.is64).then_some(base_data));
    eq!("size of image", o.size_of_image() as u64, va);
    eq!("virtual_len", said.virtual_len as u64, va);
    eq!("file length", bytes.len() as u64, pos);
    eq!("reserved length", said.len, pos);
    eq!("written length", said.written, pos);
    for (i, v, s) in &p.set_dirs {
        dirs[*i] = (*v, *s);
    }
    let got: Vec<(u32, u32)> = f.data_directories().iter().map(|d| (d.virtual_address.get(LE), d.size.get(LE))).collect();
    eq!("data directories", got, dirs);

    // Base relocations.
    if p.dirs > 5 {
        let mut got = Vec::new();
        let mut pages = Vec::new();
        match f.data_directories().relocation_blocks(f.data(), &f.section_table()) {
            Ok(Some(mut b)) => loop {
                match b.next() {
                    Ok(Some(blk)) => {
                        pages.push(blk.virtual_address());
                        ensure!(blk.size() % 4 == 0, "image-differs", "block size {}", blk.size());
                        got.extend(blk.map(|r| (r.virtual_address, r.typ.0)));
                    }
                    Ok(None) => break,
                    Err(e) => return violation("image-unreadable", format!("{}: base relocations: {e}", p.name())),
                }
            },
            Ok(None) => {}
            Err(e) => {
                // an empty .reloc section has an address but nothing behind it
                ensure!(p.relocs.is_empty(), "image-unreadable", "{}: base relocations: {e}", p.name());
            }
        }
        let want: Vec<_> = p.relocs.iter().copied().filter(|(va, t)| (va & 0xfff) != 0 || *t != 0).collect();
        eq!("base relocations", got, want);
        ensure!(pages.windows(2).all(|w| w[0] < w[1]) && pages.iter().all(|p| p & 0xfff == 0), "image-differs", "relocation pages {pages:x?}");
        eq!("has_relocs", said.has_relocs, !p.relocs.is_empty());
    }
    Ok(())
}

/// The bytes of a relocation section for the requested relocations.
fn reloc_bytes(relocs: &[(u32, u16)]) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    let mut i = 0;
    while i < relocs.len() {
        let page = relocs[i].0 & !0xfff;
        let n = relocs[i..].iter().take_while(|r| r.0 & !0xfff == page).count();
        let padded = n.div_ceil(2) * 2;
        out.extend_from_slice(&page.to_le_bytes());
        out.extend_from_slice(&(8 + 2 * padded as u32).to_le_bytes());
        for r in &relocs[i..i + n] {
            out.extend_from_slice(&(r.1 << 12 | (r.0 & 0xfff) as u16).to_le_bytes());
        }
        if padded > n {
            out.extend_from_slice(&[0, 0]);
        }
        i += n;
    }
    out
}

fn c11_image(ctx: &mut Ctx) -> R {
    let p = Plan::gen_plan(ctx);
    ctx.ev(|| {
        let items: Vec<String> = p.items.iter().map(|i| match i {
            Item::Section { kind, ch, vsize, data, .. } => format!("sec{kind}({ch:#x},{vsize:#x},{:#x})", data.len()),
            Item::Loose(d, a) => format!("loose({},{a})", d.len()),
            Item::Certificates(d) => format!("certs({})", d.len()),
            x => format!("{x:?}"),
        }).collect();
        format!("{} dirs {} stub {} relocs {} items {}", p.name(), p.dirs, match &p.stub { Stub::Custom(d, a) => format!("{}@{a}", d.len()), s => format!("{s:?}") }, p.relocs.len(), items.join(" "))
    });
    let mut v = Vec::new();
    let said = match p.run(&mut v) {
        Ok(s) => s,
        Err(e) => return violation("valid-layout-refused", format!("{}: {e}", p.name())),
    };
    ctx.fold_bytes(&v);
    ctx.sig(fnv(&v));
    let cfg = SourceCfg::benign(ctx);
    through_stream(ctx, &v, cfg, |r| {
        if p.is64 {
            match PeFile::<pe::ImageNtHeaders64, _>::parse(r) {
                Ok(f) => check(&p, &said, &v, &f),
                Err(e) => violation("image-unreadable", format!("{}: {e}", p.name())),
            }
        } else {
            match PeFile::<pe::ImageNtHeaders32, _>::parse(r) {
                Ok(f) => check(&p, &said, &v, &f),
                Err(e) => violation("image-unreadable", format!("{}: {e}", p.name())),
            }
        }
    })
}

pub fn props(v: &mut Vec<crate::runner::Prop>) {
    v.push(crate::runner::Prop {
        id: "C11",
        level: "exploration",
        rule: "distinct images",
        scenarios: vec![("image", 1, c11_image as _)],
        real: &["src/write/pe.rs", "src/read/pe", "src/read/read_cache.rs"],
        stub: &["the stored file and its stream (simulated source under the real ReadCache)"],
        assumptions: &[],
        quick_secs: 40,
        thorough_secs: 600,
    });
}
