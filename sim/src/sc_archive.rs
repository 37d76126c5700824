//! Archives of every flavour (C12): written by an independent writer, read by seeded histories of queries through
//! memory, through the real cache over a simulated stream, and - for archives beyond 4 GiB - over a sparse stream.
use crate::choices::fnv;
use crate::ctx::{Ctx, R, violation};
use crate::ensure;
use crate::simio::{SourceCfg, through_stream};
use object::FileKind;
use object::read::archive::{ArchiveFile, ArchiveKind, ArchiveMember, ArchiveOffset};
use object::read::{ReadCache, ReadRef};
use std::io::{Read, Seek, SeekFrom};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Flavour {
    Plain,
    PlainBsd,
    Gnu,
    Gnu64,
    Bsd,
    Bsd64,
    Coff,
    Thin,
    Thin64,
    Aix,
    Zos,
}
const FLAVOURS: [Flavour; 11] = [
    Flavour::Plain,
    Flavour::PlainBsd,
    Flavour::Gnu,
    Flavour::Gnu64,
    Flavour::Bsd,
    Flavour::Bsd64,
    Flavour::Coff,
    Flavour::Thin,
    Flavour::Thin64,
    Flavour::Aix,
    Flavour::Zos,
];

impl Flavour {
    fn thin(self) -> bool {
        matches!(self, Flavour::Thin | Flavour::Thin64)
    }
    fn sysv(self) -> bool {
        matches!(self, Flavour::Plain | Flavour::Gnu | Flavour::Gnu64 | Flavour::Coff | Flavour::Thin | Flavour::Thin64)
    }
    fn bsd_names(self) -> bool {
        matches!(self, Flavour::PlainBsd | Flavour::Bsd | Flavour::Bsd64 | Flavour::Zos)
    }
}

#[derive(Clone, Debug)]
struct Member {
    name: Vec<u8>,
    /// stored in a names table or in front of the data although it may fit the header
    long: bool,
    /// padding after a name stored in front of the data
    name_pad: usize,
    date: Option<u64>,
    uid: Option<u64>,
    gid: Option<u64>,
    mode: Option<u64>,
    data: Vec<u8>,
    /// zero bytes after `data`, not stored in memory
    extra: u64,
}
impl Member {
    fn size(&self) -> u64 {
        self.data.len() as u64 + self.extra
    }
}

#[derive(Clone, Debug)]
struct Plan {
    flavour: Flavour,
    members: Vec<Member>,
    /// symbol name and defining member
    symbols: Option<Vec<(Vec<u8>, usize)>>,
    sorted: bool,
    ec: bool,
    always_names: bool,
    aix_index_first: bool,
    free_gap: u64,
    sym_pad: usize,
}

/// A stored archive, as pieces at offsets, and where things are.
#[derive(Default)]
struct Laid {
    pieces: Vec<(u64, Vec<u8>)>,
    len: u64,
    headers: Vec<u64>,
    /// where the content of each member is
    ranges: Vec<(u64, u64)>,
    /// where the value of the size field is
    members_start: u64,
    /// content of the symbol table
    symtab: Option<(u64, u64)>,
    names: Option<(u64, u64)>,
    index: Option<u64>,
}

impl Laid {
    fn put(&mut self, b: &[u8]) {
        self.pieces.push((self.len, b.to_vec()));
        self.len += b.len() as u64;
    }
    fn flat(&self) -> Vec<u8> {
        let mut v = vec![0u8; self.len as usize];
        for (o, p) in &self.pieces {
            v[*o as usize..*o as usize + p.len()].copy_from_slice(p);
        }
        v
    }
}

fn field(v: &mut Vec<u8>, text: &str, width: usize, zos: bool) {
    let mut b: Vec<u8> = text.bytes().collect();
    assert!(b.len() <= width, "field {text} does not fit {width}");
    b.resize(width, b' ');
    if zos {
        for x in &mut b {
            *x = ebcdic(*x);
        }
    }
    v.extend_from_slice(&b);
}

fn ebcdic(c: u8) -> u8 {
    match c {
        b' ' => 0x40,
        b'0'..=b'9' => 0xF0 + (c - b'0'),
        b'#' => 0x7B,
        b'/' => 0x61,
        b'a'..=b'i' => 0x81 + (c - b'a'),
        b'j'..=b'r' => 0x91 + (c - b'j'),
        b's'..=b'z' => 0xA2 + (c - b's'),
        b'A'..=b'I' => 0xC1 + (c - b'A'),
        b'J'..=b'R' => 0xD1 + (c - b'J'),
        b'S'..=b'Z' => 0xE2 + (c - b'S'),
        b'.' => 0x4B,
        b'_' => 0x6D,
        _ => 0x6F,
    }
}

fn num(v: Option<u64>, octal: bool) -> String {
    match v {
        None => String::new(),
        Some(v) if octal => format!("{v:o}"),
        Some(v) => format!("{v}"),
    }
}

struct Meta<'a> {
    date: Option<u64>,
    uid: Option<u64>,
    gid: Option<u64>,
    mode: Option<u64>,
    name: &'a [u8],
    size: u64,
}

fn header(m: &Meta<'_>, zos: bool) -> Vec<u8> {
    let mut v = Vec::with_capacity(60);
    let mut n = m.name.to_vec();
    assert!(n.len() <= 16);
    n.resize(16, if zos { 0x40 } else { b' ' });
    v.extend_from_slice(&n);
    field(&mut v, &num(m.date, false), 12, zos);
    field(&mut v, &num(m.uid, false), 6, zos);
    field(&mut v, &num(m.gid, false), 6, zos);
    field(&mut v, &num(m.mode, true), 8, zos);
    field(&mut v, &m.size.to_string(), 10, zos);
    v.extend_from_slice(if zos { b"\x79\x15" } else { b"`\n" });
    v
}

impl Plan {
    /// Content of the symbol table for members at `headers`.
    fn symtab(&self, syms: &[(Vec<u8>, usize)], headers: &[u64], first_linker: bool) -> Vec<u8> {
        let at = |m: usize| headers.get(m).copied().unwrap_or(0);
        let mut v = Vec::new();
        match self.flavour {
            Flavour::Gnu | Flavour::Thin => {
                v.extend((syms.len() as u32).to_be_bytes());
                for s in syms {
                    v.extend((at(s.1) as u32).to_be_bytes());
                }
                for s in syms {
                    v.extend(&s.0);
                    v.push(0);
                }
            }
            Flavour::Coff if first_linker => {
                v.extend((syms.len() as u32).to_be_bytes());
                for s in syms {
                    v.extend((at(s.1) as u32).to_be_bytes());
                }
                for s in syms {
                    v.extend(&s.0);
                    v.push(0);
                }
            }
            Flavour::Coff => {
                v.extend((self.members.len() as u32).to_le_bytes());
                for m in 0..self.members.len() {
                    v.extend((at(m) as u32).to_le_bytes());
                }
                v.extend((syms.len() as u32).to_le_bytes());
                for s in syms {
                    v.extend((s.1 as u16 + 1).to_le_bytes());
                }
                for s in syms {
                    v.extend(&s.0);
                    v.push(0);
                }
            }
            Flavour::Gnu64 | Flavour::Thin64 => {
                v.extend((syms.len() as u64).to_be_bytes());
                for s in syms {
                    v.extend(at(s.1).to_be_bytes());
                }
                for s in syms {
                    v.extend(&s.0);
                    v.push(0);
                }
            }
            Flavour::Bsd | Flavour::Bsd64 => {
                let wide = self.flavour == Flavour::Bsd64;
                let w = |v: &mut Vec<u8>, x: u64| {
                    if wide { v.extend(x.to_le_bytes()) } else { v.extend((x as u32).to_le_bytes()) }
                };
                let mut strings = Vec::new();
                // names in another order than the entries
                let mut offs = vec![0u64; syms.len()];
                let order: Vec<usize> =
                    if self.sorted { (0..syms.len()).collect() } else { (0..syms.len()).rev().collect() };
                for i in order {
                    offs[i] = strings.len() as u64;
                    strings.extend(&syms[i].0);
                    strings.push(0);
                }
                strings.resize(strings.len() + self.sym_pad, 0);
                w(&mut v, (syms.len() * if wide { 16 } else { 8 }) as u64);
                for (s, o) in syms.iter().zip(&offs) {
                    w(&mut v, *o);
                    w(&mut v, at(s.1));
                }
                w(&mut v, strings.len() as u64);
                v.extend(strings);
            }
            Flavour::Aix => {
                v.extend((syms.len() as u64).to_be_bytes());
                for s in syms {
                    v.extend(at(s.1).to_be_bytes());
                }
                for s in syms {
                    v.extend(&s.0);
                    v.push(0);
                }
            }
            Flavour::Zos => {
                v.extend((syms.len() as u32).to_be_bytes());
                for s in syms {
                    v.extend((at(s.1) as u32).to_be_bytes());
                    v.extend([0; 4]);
                }
            }
            Flavour::Plain | Flavour::PlainBsd => unreachable!(),
        }
        if !matches!(self.flavour, Flavour::Bsd | Flavour::Bsd64) {
            v.resize(v.len() + self.sym_pad, 0);
        }
        v
    }

    /// Symbols in the order in which the stored table lists them.
    fn stored_symbols(&self) -> Option<Vec<(Vec<u8>, usize)>> {
        let mut s = self.symbols.clone()?;
        if self.flavour == Flavour::Coff || self.sorted {
            s.sort();
        }
        Some(s)
    }

    fn lay(&self) -> Laid {
        if self.flavour == Flavour::Aix {
            let l = self.lay_aix(&[]);
            return self.lay_aix(&l.headers);
        }
        let l = self.lay_common(&[]);
        self.lay_common(&l.headers)
    }

    fn special(&self, l: &mut Laid, name: &str, content: &[u8]) -> (u64, u64) {
        let zos = self.flavour == Flavour::Zos;
        let mut front = Vec::new();
        let mut field_name: Vec<u8> = name.bytes().collect();
        let bsd = matches!(self.flavour, Flavour::Bsd | Flavour::Bsd64);
        if bsd && (name.len() > 16 || self.always_names) {
            front = name.bytes().collect();
            front.resize(name.len().next_multiple_of(4), 0);
            field_name = format!("#1/{}", front.len()).into_bytes();
        }
        if zos {
            field_name = field_name.iter().map(|c| ebcdic(*c)).collect();
        }
        let size = (front.len() + content.len()) as u64;
        let none = (name == "//").then_some(()).is_some();
        let d = if none { None } else { Some(0) };
        let h = header(&Meta { date: d, uid: d, gid: d, mode: d, name: &field_name, size }, zos);
        l.put(&h);
        l.put(&front);
        let at = l.len;
        l.put(content);
        if size % 2 == 1 {
            l.put(if zos { b"\x15" } else { b"\n" });
        }
        (at, content.len() as u64)
    }

    fn lay_common(&self, headers: &[u64]) -> Laid {
        let mut l = Laid::default();
        let f = self.flavour;
        let zos = f == Flavour::Zos;
        l.put(match f {
            Flavour::Thin | Flavour::Thin64 => b"!<thin>\n",
            Flavour::Zos => b"\x5A\x4C\x81\x99\x83\x88\x6E\x15",
            _ => b"!<arch>\n",
        });
        if let Some(syms) = self.stored_symbols() {
            match f {
                Flavour::Coff => {
                    let t = self.symtab(self.symbols.as_ref().unwrap(), headers, true);
                    self.special(&mut l, "/", &t);
                }
                _ => {}
            }
            let t = self.symtab(&syms, headers, false);
            let name = match (f, self.sorted) {
                (Flavour::Gnu | Flavour::Thin | Flavour::Coff, _) => "/",
                (Flavour::Gnu64 | Flavour::Thin64, _) => "/SYM64/",
                (Flavour::Bsd, false) => "__.SYMDEF",
                (Flavour::Bsd, true) => "__.SYMDEF SORTED",
                (Flavour::Bsd64, false) => "__.SYMDEF_64",
                (Flavour::Bsd64, true) => "__.SYMDEF_64 SORTED",
                (Flavour::Zos, _) => "__.SYMDEF",
                _ => unreachable!(),
            };
            l.symtab = Some(self.special(&mut l, name, &t));
        }
        let mut names = Vec::new();
        let mut name_at = vec![None; self.members.len()];
        if f.sysv() {
            for (i, m) in self.members.iter().enumerate() {
                if m.long {
                    name_at[i] = Some(names.len());
                    names.extend(&m.name);
                    if f == Flavour::Coff {
                        names.push(0);
                    } else {
                        names.extend(b"/\n");
                    }
                }
            }
            if !names.is_empty() || (self.always_names && f != Flavour::Plain) {
                l.names = Some(self.special(&mut l, "//", &names));
            }
            if self.ec && f == Flavour::Coff && self.symbols.is_some() {
                self.special(&mut l, "/<ECSYMBOLS>/", &[0, 0, 0, 0]);
            }
        }
        l.members_start = l.len;
        for (i, m) in self.members.iter().enumerate() {
            l.headers.push(l.len);
            let mut front = Vec::new();
            let name: Vec<u8> = if let Some(o) = name_at[i] {
                format!("/{o}").into_bytes()
            } else if f.sysv() {
                let mut n = m.name.clone();
                n.push(b'/');
                n
            } else if m.long {
                front = m.name.clone();
                front.resize(m.name.len() + m.name_pad, 0);
                let t = format!("#1/{}", front.len()).into_bytes();
                if zos { t.iter().map(|c| ebcdic(*c)).collect() } else { t }
            } else {
                m.name.clone()
            };
            let size = front.len() as u64 + m.size();
            l.put(&header(&Meta { date: m.date, uid: m.uid, gid: m.gid, mode: m.mode, name: &name, size }, zos));
            if f.thin() {
                l.ranges.push((0, m.size()));
                continue;
            }
            l.put(&front);
            l.ranges.push((l.len, m.size()));
            l.put(&m.data);
            l.len += m.extra;
            if size % 2 == 1 {
                l.put(if zos { b"\x15" } else { b"\n" });
            }
        }
        l
    }

    fn lay_aix(&self, headers: &[u64]) -> Laid {
        let mut l = Laid::default();
        l.put(&[0; 128]);
        let member = |l: &mut Laid, m: &Member, prev: u64, next: u64| -> (u64, u64) {
            if l.len % 2 == 1 {
                l.put(&[0]);
            }
            let at = l.len;
            let mut v = Vec::new();
            field(&mut v, &m.size().to_string(), 20, false);
            field(&mut v, &next.to_string(), 20, false);
            field(&mut v, &prev.to_string(), 20, false);
            field(&mut v, &num(m.date, false), 12, false);
            field(&mut v, &num(m.uid, false), 12, false);
            field(&mut v, &num(m.gid, false), 12, false);
            field(&mut v, &num(m.mode, true), 12, false);
            field(&mut v, &m.name.len().to_string(), 4, false);
            v.extend(&m.name);
            if m.name.len() % 2 == 1 {
                v.push(0);
            }
            v.extend(b"`\n");
            l.put(&v);
            let data = l.len;
            l.put(&m.data);
            l.len += m.extra;
            (at, data)
        };
        let plain = |data: Vec<u8>| Member {
            name: Vec::new(),
            long: false,
            name_pad: 0,
            date: Some(0),
            uid: Some(0),
            gid: Some(0),
            mode: Some(0),
            data,
            extra: 0,
        };
        let n = self.members.len();
        let mut table = Vec::new();
        field(&mut table, &n.to_string(), 20, false);
        for i in 0..n {
            field(&mut table, &headers.get(i).copied().unwrap_or(0).to_string(), 20, false);
        }
        for m in &self.members {
            table.extend(&m.name);
            table.push(0);
        }
        let mut memoff = 0;
        if n > 0 && self.aix_index_first {
            let (at, data) = member(&mut l, &plain(table.clone()), 0, 0);
            memoff = at;
            l.index = Some(data);
        }
        for (i, m) in self.members.iter().enumerate() {
            if self.free_gap > 0 && i == n / 2 {
                l.len += self.free_gap * 2;
            }
            let prev = if i > 0 { l.headers[i - 1] } else { 0 };
            let next = headers.get(i + 1).copied().unwrap_or(0);
            let (at, data) = member(&mut l, m, prev, next);
            l.headers.push(at);
            l.ranges.push((data, m.size()));
        }
        if n > 0 && !self.aix_index_first {
            let (at, data) = member(&mut l, &plain(table), 0, 0);
            memoff = at;
            l.index = Some(data);
        }
        let mut gst = [0u64; 2];
        if let Some(syms) = &self.symbols {
            let t = self.symtab(syms, headers, false);
            let size = t.len() as u64;
            let (at, data) = member(&mut l, &plain(t), 0, 0);
            gst[self.sorted as usize] = at;
            l.symtab = Some((data, size));
        }
        let mut h = b"<bigaf>\n".to_vec();
        for v in [
            memoff,
            gst[0],
            gst[1],
            l.headers.first().copied().unwrap_or(0),
            l.headers.last().copied().unwrap_or(0),
            0,
        ] {
            field(&mut h, &v.to_string(), 20, false);
        }
        l.pieces[0].1 = h;
        l
    }

    fn kind(&self) -> ArchiveKind {
        let names = self.members.iter().any(|m| m.long) || self.always_names;
        match self.flavour {
            Flavour::Plain if self.members.iter().any(|m| m.long) => ArchiveKind::Gnu,
            Flavour::Plain | Flavour::PlainBsd => ArchiveKind::Unknown,
            Flavour::Gnu | Flavour::Thin => {
                if self.symbols.is_some() || names { ArchiveKind::Gnu } else { ArchiveKind::Unknown }
            }
            Flavour::Gnu64 | Flavour::Thin64 => {
                if self.symbols.is_some() {
                    ArchiveKind::Gnu64
                } else if names {
                    ArchiveKind::Gnu
                } else {
                    ArchiveKind::Unknown
                }
            }
            Flavour::Bsd => if self.symbols.is_some() { ArchiveKind::Bsd } else { ArchiveKind::Unknown },
            Flavour::Bsd64 => if self.symbols.is_some() { ArchiveKind::Bsd64 } else { ArchiveKind::Unknown },
            Flavour::Coff => {
                if self.symbols.is_some() {
                    ArchiveKind::Coff
                } else if names {
                    ArchiveKind::Gnu
                } else {
                    ArchiveKind::Unknown
                }
            }
            Flavour::Aix => ArchiveKind::AixBig,
            Flavour::Zos => ArchiveKind::Zos,
        }
    }
}

fn gen_name(ctx: &mut Ctx, f: Flavour) -> (Vec<u8>, bool) {
    let len = 1 + match ctx.c.below(12) {
        0 => ctx.c.below(5000),
        1..=4 => 10 + ctx.c.below(10),
        _ => ctx.c.below(30),
    } as usize;
    const PLAIN: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-+#";
    let wild = ctx.c.chance(1, 4);
    let mut n: Vec<u8> = Vec::with_capacity(len);
    for _ in 0..len {
        let b = if wild {
            match ctx.c.below(8) {
                0 => b' ',
                1 => b'/',
                2 => 0x80 + ctx.c.below(0x80) as u8,
                3 => b'`',
                _ => *ctx.c.pick(PLAIN),
            }
        } else {
            *ctx.c.pick(PLAIN)
        };
        n.push(if f == Flavour::Zos { ebcdic(b) } else { b });
    }
    // a path that ends with a slash is no file
    if n.ends_with(b"/") {
        n.push(b'x');
    }
    if f == Flavour::Aix {
        n.truncate(9000);
        return (n, false);
    }
    let (space, slash) = if f == Flavour::Zos { (0x40, 0x61) } else { (b' ', b'/') };
    let fits = if f.sysv() {
        // the slash that ends a name hides spaces in it
        n.len() <= 15 && !n.contains(&slash)
    } else if f == Flavour::Zos {
        n.len() <= 16 && !n.contains(&space) && n[0] != 0x7B
    } else {
        n.len() <= 16 && !n.contains(&space) && !n.contains(&slash)
    };
    let special = n.starts_with(b"__.SYMDEF") || n.starts_with(&b"__.SYMDEF".map(ebcdic));
    let long = !fits || special || ctx.c.chance(1, 8);
    (n, long)
}

fn gen_plan(ctx: &mut Ctx, sparse: bool) -> Plan {
    let f = if sparse {
        *ctx.c.pick(&[Flavour::Plain, Flavour::PlainBsd, Flavour::Gnu64, Flavour::Bsd64, Flavour::Aix, Flavour::Zos])
    } else {
        FLAVOURS[ctx.c.idx(FLAVOURS.len())]
    };
    let many = ctx.c.chance(1, 40);
    let n = if many { 200 + ctx.c.below(800) } else { ctx.c.size(20) };
    let wide = f == Flavour::Aix;
    let mut members = Vec::new();
    for _ in 0..n {
        let (name, long) = gen_name(ctx, f);
        let meta = |ctx: &mut Ctx, digits: u32, radix: u64| {
            if ctx.c.chance(1, 10) {
                return None;
            }
            let max = radix.pow(digits) - 1;
            Some(match ctx.c.below(4) {
                0 => 0,
                1 => max,
                2 => ctx.c.below(1000.min(max)),
                _ => ctx.c.u64() % (max + 1),
            })
        };
        let date = meta(ctx, 12, 10);
        let (uid, gid) = if wide { (meta(ctx, 12, 10), meta(ctx, 12, 10)) } else { (meta(ctx, 6, 10), meta(ctx, 6, 10)) };
        let mode = meta(ctx, if wide { 12 } else { 8 }, 8);
        let len = if ctx.c.chance(1, 8) { 0 } else { ctx.c.size(if many { 40 } else { 3000 }) } as usize;
        let data = ctx.c.bytes(len);
        let extra = if sparse && ctx.c.chance(1, 3) {
            *ctx.c.pick(&[0x7fff_ffffu64, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 5_000_000_000])
        } else {
            0
        };
        let name_pad = if ctx.c.chance(1, 2) { ctx.c.below(8) as usize } else { 0 };
        members.push(Member { name, long, name_pad, date, uid, gid, mode, data, extra });
    }
    let symbols = if matches!(f, Flavour::Plain | Flavour::PlainBsd) || ctx.c.chance(1, 6) {
        None
    } else {
        let mut s = Vec::new();
        if !members.is_empty() {
            let k = if ctx.c.chance(1, 30) { 2000 } else { ctx.c.size(60) };
            for i in 0..k {
                let l = if ctx.c.chance(1, 20) { ctx.c.below(3000) } else { ctx.c.below(40) } as usize;
                let mut name: Vec<u8> = (0..l).map(|_| 1 + ctx.c.below(255) as u8).collect();
                if ctx.c.chance(4, 5) {
                    name.extend(format!("{i}").bytes());
                }
                s.push((name, ctx.c.idx(members.len())));
            }
        }
        Some(s)
    };
    Plan {
        flavour: f,
        members,
        symbols,
        sorted: ctx.c.chance(1, 2),
        ec: ctx.c.chance(1, 4),
        always_names: ctx.c.chance(1, 4),
        aix_index_first: ctx.c.chance(1, 3),
        free_gap: if ctx.c.chance(1, 3) { ctx.c.below(200) } else { 0 },
        sym_pad: ctx.c.below(4) as usize,
    }
}

fn same_member<'d, D: ReadRef<'d>>(
    ctx: &mut Ctx,
    p: &Plan,
    l: &Laid,
    i: usize,
    m: &ArchiveMember<'d>,
    data: D,
    how: &str,
) -> R {
    let w = &p.members[i];
    let short = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(60)]).into_owned();
    ensure!(
        m.name() == &w.name[..],
        "wrong-member-name",
        "{how}: member {i} of {:?} is `{}` ({} bytes) instead of `{}` ({} bytes)",
        p.flavour,
        short(m.name()),
        m.name().len(),
        short(&w.name),
        w.name.len()
    );
    let got = (m.date(), m.uid(), m.gid(), m.mode());
    ensure!(
        got == (w.date, w.uid, w.gid, w.mode),
        "wrong-member-metadata",
        "{how}: member {i} of {:?}: date, uid, gid, mode {got:?} instead of {:?}",
        p.flavour,
        (w.date, w.uid, w.gid, w.mode)
    );
    ensure!(
        m.size() == w.size() && m.file_range() == l.ranges[i],
        "wrong-member-range",
        "{how}: member {i} of {:?}: size {} range {:?} instead of {} {:?}",
        p.flavour,
        m.size(),
        m.file_range(),
        w.size(),
        l.ranges[i]
    );
    ensure!(m.is_thin() == p.flavour.thin(), "wrong-thin", "{how}: member {i} of {:?}: thin {}", p.flavour, m.is_thin());
    let aix = p.flavour == Flavour::Aix;
    ensure!(
        m.aix_header().is_some() == aix && m.header().is_some() == !(aix || p.flavour == Flavour::Zos),
        "wrong-header-kind",
        "{how}: member {i} of {:?}",
        p.flavour
    );
    // contents too big to hold are not read
    if w.extra == 0 {
        let want: &[u8] = if p.flavour.thin() { &[] } else { &w.data };
        match m.data(data) {
            Ok(got) => ensure!(
                got == want,
                "wrong-member-data",
                "{how}: member {i} of {:?}: {} bytes differ from the stored {}",
                p.flavour,
                got.len(),
                want.len()
            ),
            Err(e) => return violation("member-data-lost", format!("{how}: member {i} of {:?}: {e}", p.flavour)),
        }
    }
    ctx.steps += 1;
    Ok(())
}

/// A seeded history of queries on an undamaged archive.
fn history<'d, D: ReadRef<'d>>(ctx: &mut Ctx, p: &Plan, l: &Laid, data: D) -> R {
    match FileKind::parse(data) {
        Ok(FileKind::Archive) => {}
        // empty archives and these two flavours are not detected
        Err(_) if l.len < 16 || matches!(p.flavour, Flavour::Aix | Flavour::Zos) => {}
        other => return violation("wrong-file-kind", format!("{:?}: {other:?}", p.flavour)),
    }
    let a = match ArchiveFile::parse(data) {
        Ok(a) => a,
        Err(e) => return violation("archive-refused", format!("{:?}: {e}", p.flavour)),
    };
    ensure!(a.kind() == p.kind(), "wrong-kind", "{:?} instead of {:?} ({:?})", a.kind(), p.kind(), p.flavour);
    ensure!(a.is_thin() == p.flavour.thin(), "wrong-thin", "archive {:?}: {}", p.flavour, a.is_thin());
    let stored = p.stored_symbols();
    let n = p.members.len();
    let mut iter = None;
    let mut next = 0;
    let steps = 3 + ctx.c.below(12);
    for step in 0..=steps {
        let op = if step == steps { 0 } else { ctx.c.below(7) };
        match op {
            // the whole list
            0 => {
                let mut i = 0;
                for m in a.members() {
                    ensure!(i < n, "extra-member", "{:?} lists more than {n} members", p.flavour);
                    match m {
                        Ok(m) => same_member(ctx, p, l, i, &m, data, "iteration")?,
                        Err(e) => return violation("member-lost", format!("{:?} member {i}: {e}", p.flavour)),
                    }
                    i += 1;
                }
                ensure!(i == n, "member-missing", "{:?} lists {i} of {n} members", p.flavour);
            }
            // one more step of an iteration in progress
            1 | 2 => {
                let it = iter.get_or_insert_with(|| {
                    next = 0;
                    a.members()
                });
                match it.next() {
                    None => {
                        ensure!(next == n, "member-missing", "{:?} lists {next} of {n} members", p.flavour);
                        ensure!(it.next().is_none(), "iterator-restarts", "{:?}", p.flavour);
                        iter = None;
                    }
                    Some(Ok(m)) => {
                        ensure!(next < n, "extra-member", "{:?} lists more than {n} members", p.flavour);
                        same_member(ctx, p, l, next, &m, data, "iteration")?;
                        next += 1;
                    }
                    Some(Err(e)) => return violation("member-lost", format!("{:?} member {next}: {e}", p.flavour)),
                }
            }
            // by offset
            3 | 4 if n > 0 => {
                let i = ctx.c.idx(n);
                match a.member(ArchiveOffset(l.headers[i])) {
                    Ok(m) => same_member(ctx, p, l, i, &m, data, "by offset")?,
                    Err(e) => return violation("member-lost", format!("{:?} member {i} by offset: {e}", p.flavour)),
                }
            }
            // offsets outside of the members
            5 if p.flavour != Flavour::Aix => {
                let off = if ctx.c.chance(1, 2) { l.len + ctx.c.below(3) } else { ctx.c.below(l.members_start) };
                ensure!(
                    a.member(ArchiveOffset(off)).is_err(),
                    "member-outside",
                    "{:?}: a member at {off}, members are {}..{}",
                    p.flavour,
                    l.members_start,
                    l.len
                );
            }
            // symbols
            _ => symbols(ctx, p, l, &a, data, &stored, None)?,
        }
    }
    symbols(ctx, p, l, &a, data, &stored, None)
}

/// Compare the symbol list; entry `bad` must be an error.
fn symbols<'d, D: ReadRef<'d>>(
    ctx: &mut Ctx,
    p: &Plan,
    l: &Laid,
    a: &ArchiveFile<'d, D>,
    data: D,
    stored: &Option<Vec<(Vec<u8>, usize)>>,
    bad: Option<usize>,
) -> R {
    let it = match a.symbols() {
        Ok(x) => x,
        Err(e) => return violation("symbols-lost", format!("{:?}: {e}", p.flavour)),
    };
    let Some(want) = stored else {
        ensure!(it.is_none(), "extra-symbols", "{:?} has a symbol table", p.flavour);
        return Ok(());
    };
    let Some(it) = it else {
        return violation("symbols-missing", format!("{:?}: no symbol table", p.flavour));
    };
    // documented as not implemented
    let want: &[(Vec<u8>, usize)] = if matches!(p.flavour, Flavour::Aix | Flavour::Zos) { &[] } else { want };
    ensure!(
        it.size_hint() == (want.len(), Some(want.len())) || want.is_empty(),
        "wrong-symbol-count",
        "{:?}: {:?} symbols announced of {}",
        p.flavour,
        it.size_hint(),
        want.len()
    );
    let follow = ctx.c.idx(want.len().max(1));
    let mut i = 0;
    for s in it {
        ensure!(i < want.len(), "extra-symbol", "{:?} lists more than {} symbols", p.flavour, want.len());
        match s {
            Ok(s) => {
                ensure!(bad != Some(i), "damage-hidden", "{:?}: symbol {i} has a damaged entry", p.flavour);
                ensure!(
                    s.name() == &want[i].0[..],
                    "wrong-symbol-name",
                    "{:?}: symbol {i} is {:?} instead of {:?}",
                    p.flavour,
                    String::from_utf8_lossy(s.name()),
                    String::from_utf8_lossy(&want[i].0)
                );
                let at = s.offset().0;
                ensure!(
                    at == l.headers[want[i].1],
                    "wrong-symbol-member",
                    "{:?}: symbol {i} leads to {at:#x} instead of member {} at {:#x}",
                    p.flavour,
                    want[i].1,
                    l.headers[want[i].1]
                );
                if i == follow {
                    match a.member(s.offset()) {
                        Ok(m) => same_member(ctx, p, l, want[i].1, &m, data, "by symbol")?,
                        Err(e) => return violation("member-lost", format!("{:?} symbol {i}: {e}", p.flavour)),
                    }
                }
            }
            Err(e) => {
                ensure!(bad == Some(i), "symbol-lost", "{:?} symbol {i}: {e}", p.flavour);
            }
        }
        i += 1;
    }
    ensure!(i == want.len(), "symbol-missing", "{:?} lists {i} of {} symbols", p.flavour, want.len());
    Ok(())
}

fn note(ctx: &mut Ctx, p: &Plan, l: &Laid) {
    ctx.ev(|| {
        format!(
            "{:?}: {} members, {:?} symbols, {} bytes, members at {:?}",
            p.flavour,
            p.members.len(),
            p.symbols.as_ref().map(|s| s.len()),
            l.len,
            &l.headers[..l.headers.len().min(20)]
        )
    });
    ctx.probe(&format!("{:?}", p.flavour));
}

/// An archive of any flavour.
pub fn file(ctx: &mut Ctx) -> Vec<u8> {
    gen_plan(ctx, false).lay().flat()
}

fn c12_archive(ctx: &mut Ctx) -> R {
    let p = gen_plan(ctx, false);
    let l = p.lay();
    let data = l.flat();
    note(ctx, &p, &l);
    ctx.sig(fnv(&data));
    ctx.fold_bytes(&data);
    history(ctx, &p, &l, &data[..])?;
    let cfg = SourceCfg::benign(ctx);
    let seed_ctx: *mut Ctx = ctx;
    // the history draws from the same choices as the stream
    through_stream(ctx, &data, cfg, |r| history(unsafe { &mut *seed_ctx }, &p, &l, r))
}

/// A file of which only some pieces are not zero.
struct Sparse {
    pieces: Vec<(u64, Vec<u8>)>,
    len: u64,
    pos: u64,
    rng: crate::choices::Prng,
}
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.rng.below(8) == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = (buf.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        if n > 1 && self.rng.below(3) == 0 {
            n = 1 + self.rng.below(n as u64) as usize;
        }
        let (a, b) = (self.pos, self.pos + n as u64);
        buf[..n].fill(0);
        for (o, p) in &self.pieces {
            let (s, e) = ((*o).max(a), (o + p.len() as u64).min(b));
            if s < e {
                buf[(s - a) as usize..(e - a) as usize].copy_from_slice(&p[(s - o) as usize..(e - o) as usize]);
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        let at = match to {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.len as i128 + x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
        };
        if !(0..=u64::MAX as i128).contains(&at) {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.pos = at as u64;
        Ok(self.pos)
    }
}

fn c12_sparse(ctx: &mut Ctx) -> R {
    let p = gen_plan(ctx, true);
    let l = p.lay();
    note(ctx, &p, &l);
    if l.len > u32::MAX as u64 {
        ctx.probe("beyond_4gib");
    }
    for (o, d) in &l.pieces {
        ctx.fold(*o);
        ctx.fold_bytes(d);
    }
    ctx.sig(ctx.digest);
    let rng = crate::choices::Prng::new(ctx.c.u64());
    let cache = ReadCache::new(Sparse { pieces: l.pieces.clone(), len: l.len, pos: 0, rng });
    history(ctx, &p, &l, &cache)
}

/// What is wrong with a damaged archive.
#[derive(Debug)]
enum Hurt {
    /// the member cannot be read
    Member(usize),
    /// the member is there, its content is not
    Content(usize),
    /// this symbol cannot be read
    Symbol(usize),
    SymbolTable,
    Archive,
    /// something in the header of this member, with an unknown outcome for the member
    Header(usize),
}

fn damage(ctx: &mut Ctx, p: &Plan, l: &Laid, d: &mut Vec<u8>) -> Option<Hurt> {
    let n = p.members.len();
    let aix = p.flavour == Flavour::Aix;
    let zos = p.flavour == Flavour::Zos;
    let space = if zos { 0x40 } else { b' ' };
    let i = if n > 0 { ctx.c.idx(n) } else { 0 };
    let put = |d: &mut Vec<u8>, at: u64, text: &str, width: usize| {
        let mut v = Vec::new();
        field(&mut v, text, width, zos);
        d[at as usize..at as usize + width].copy_from_slice(&v);
    };
    let h = l.headers.get(i).copied().unwrap_or(0);
    let (size_at, size_width) = if aix { (h, 20) } else { (h + 48, 10) };
    let term_at = if aix { l.ranges.get(i).map_or(0, |r| r.0) - if n > 0 { 2 } else { 0 } } else { h + 58 };
    Some(match ctx.c.below(14) {
        0 if n > 0 => {
            let k = term_at as usize + ctx.c.idx(2);
            d[k] ^= 1 << ctx.c.below(8);
            Hurt::Member(i)
        }
        1 if n > 0 => {
            // a size that is no number
            let first = d[size_at as usize..(size_at + size_width) as usize].iter().position(|b| *b == space);
            let digits = first.unwrap_or(size_width as usize);
            let k = size_at as usize + ctx.c.idx(digits);
            d[k] = if k == size_at as usize && ctx.c.chance(1, 2) { space } else { *ctx.c.pick(b"-+x,\0") };
            if zos && d[k] != space {
                d[k] = b'0';
            }
            Hurt::Member(i)
        }
        2 if n > 0 && !p.flavour.thin() => {
            // a size that the file does not have
            let max = if aix { 20 } else { 10 };
            let more = l.len - l.ranges[i].0 + 1 + ctx.c.below(1000);
            let mut t = (l.ranges[i].0 - h - if aix { 0 } else { 60 } + more).to_string();
            if aix {
                t = more.to_string();
            } else if ctx.c.chance(1, 3) {
                t = "9".repeat(max);
            }
            put(d, size_at, &t, max);
            Hurt::Content(i)
        }
        3 if n > 0 && p.flavour.sysv() && p.members[i].long => {
            let bad = match ctx.c.below(3) {
                0 => format!("/{}", l.names.map_or(0, |x| x.1) + ctx.c.below(1000)),
                1 => "/999999999999999".to_string(),
                _ => "/0x".to_string(),
            };
            put(d, h, &bad, 16);
            Hurt::Member(i)
        }
        4 if n > 0 && p.flavour.bsd_names() && p.members[i].long => {
            let m = &p.members[i];
            let front = (m.name.len() + m.name_pad) as u64;
            let bad = if ctx.c.chance(1, 4) {
                "#1/9999999999999".to_string()
            } else {
                format!("#1/{}", front + m.size() + 1 + ctx.c.below(100))
            };
            put(d, h, &bad, 16);
            Hurt::Member(i)
        }
        5 | 6 if n > 0 && !(aix && !p.aix_index_first) && !p.flavour.thin() && p.symbols.as_ref().is_none_or(|_| !aix) => {
            // the rest of the file is lost
            let end = l.ranges[i].0 + l.ranges[i].1;
            let at = h + 1 + ctx.c.below((end - h).saturating_sub(1).max(1));
            d.truncate(at as usize);
            if at >= end {
                return None;
            }
            if at < l.ranges[i].0 || l.ranges[i].0 == 0 { Hurt::Member(i) } else { Hurt::Content(i) }
        }
        7 if n > 0 && p.flavour.thin() => {
            let at = h + 1 + ctx.c.below(59);
            d.truncate(at as usize);
            Hurt::Member(i)
        }
        8 | 9 => {
            let (at, size) = l.symtab?;
            if matches!(p.flavour, Flavour::Aix | Flavour::Zos) {
                return None;
            }
            let syms = p.symbols.as_ref()?.len();
            let at = at as usize;
            match ctx.c.below(2) {
                0 => {
                    // a count beyond the table
                    let wide = matches!(p.flavour, Flavour::Gnu64 | Flavour::Thin64 | Flavour::Bsd64);
                    let unit = if matches!(p.flavour, Flavour::Bsd | Flavour::Bsd64) { 1 } else { 4 };
                    let bad = (size / unit + 16 + ctx.c.below(1 << 20)) as u32;
                    let bad = if ctx.c.chance(1, 3) { u32::MAX } else { bad };
                    match p.flavour {
                        Flavour::Gnu | Flavour::Thin => d[at..at + 4].copy_from_slice(&bad.to_be_bytes()),
                        _ if p.flavour == Flavour::Bsd64 => d[at..at + 8].copy_from_slice(&(bad as u64).to_le_bytes()),
                        _ if wide => d[at..at + 8].copy_from_slice(&(bad as u64).to_be_bytes()),
                        _ => d[at..at + 4].copy_from_slice(&bad.to_le_bytes()),
                    }
                    Hurt::SymbolTable
                }
                _ => {
                    if syms == 0 {
                        return None;
                    }
                    let k = ctx.c.idx(syms);
                    match p.flavour {
                        Flavour::Coff => {
                            let e = at + 4 + 4 * n + 4 + 2 * k;
                            let bad = if ctx.c.chance(1, 2) { 0 } else { n as u16 + 1 + ctx.c.below(100) as u16 };
                            d[e..e + 2].copy_from_slice(&bad.to_le_bytes());
                            Hurt::Symbol(k)
                        }
                        Flavour::Bsd => {
                            let e = at + 4 + 8 * k;
                            let bad = size as u32 + ctx.c.below(1 << 30) as u32;
                            d[e..e + 4].copy_from_slice(&bad.to_le_bytes());
                            Hurt::Symbol(k)
                        }
                        Flavour::Bsd64 => {
                            let e = at + 8 + 16 * k;
                            let bad = size + (ctx.c.below(1 << 30) << 8);
                            d[e..e + 8].copy_from_slice(&bad.to_le_bytes());
                            Hurt::Symbol(k)
                        }
                        _ => {
                            // the last name is not terminated
                            if p.sym_pad > 0 {
                                return None;
                            }
                            d[at + size as usize - 1] = b'x';
                            Hurt::Symbol(syms - 1)
                        }
                    }
                }
            }
        }
        10 if aix && n > 0 => {
            let at = match ctx.c.below(3) {
                0 => 8,
                1 => {
                    let index = l.index.unwrap();
                    let at = index;
                    put(d, at, &(n as u64 + 1000 + ctx.c.below(1 << 50)).to_string(), 20);
                    return Some(Hurt::Archive);
                }
                _ => l.index.unwrap(),
            };
            d[at as usize] = *ctx.c.pick(b" x-\0");
            Hurt::Archive
        }
        11 if aix && n > 0 => {
            // an index entry that leads nowhere
            let at = l.index.unwrap() + 20 + 20 * i as u64;
            let bad = if ctx.c.chance(1, 2) { "".to_string() } else { (l.len + ctx.c.below(1 << 40)).to_string() };
            put(d, at, &bad, 20);
            return Some(Hurt::Header(i));
        }
        _ if n > 0 => {
            let len = if aix { 112 } else { 60 };
            let k = h as usize + ctx.c.idx(len);
            d[k] = if ctx.c.chance(1, 2) { d[k] ^ (1 << ctx.c.below(8)) } else { ctx.c.below(256) as u8 };
            Hurt::Header(i)
        }
        _ => return None,
    })
}

fn damaged<'d, D: ReadRef<'d>>(ctx: &mut Ctx, p: &Plan, l: &Laid, hurt: &Hurt, data: D, torn: Option<u64>) -> R {
    let n = p.members.len();
    let a = match ArchiveFile::parse(data) {
        Ok(a) => a,
        Err(e) => {
            // without special members the first member is looked at to tell the flavour
            let first = matches!(hurt, Hurt::Member(0 | 1) | Hurt::Header(0 | 1));
            ensure!(first || matches!(hurt, Hurt::Archive), "archive-lost", "{:?} {hurt:?}: {e}", p.flavour);
            return Ok(());
        }
    };
    ensure!(!matches!(hurt, Hurt::Archive), "damage-hidden", "{:?} with a damaged index was accepted", p.flavour);
    // a changed first header may be taken for a special member
    if matches!(hurt, Hurt::Header(0 | 1)) && p.flavour != Flavour::Aix {
        let mut k = 0;
        for _ in a.members() {
            k += 1;
            ensure!(k <= l.len, "endless", "{:?}: {k} members in {} bytes", p.flavour, l.len);
        }
        return Ok(());
    }
    let mut i = 0;
    let mut failed = false;
    for m in a.members() {
        ensure!(!failed, "iterates-after-error", "{:?} {hurt:?}", p.flavour);
        match m {
            Err(e) => {
                let ok = match hurt {
                    Hurt::Member(k) => i == *k,
                    Hurt::Content(k) => i > *k,
                    Hurt::Header(k) => i >= *k,
                    _ => false,
                };
                ensure!(ok, "member-lost", "{:?} {hurt:?}: member {i}: {e}", p.flavour);
                failed = true;
            }
            Ok(m) => match hurt {
                Hurt::Member(k) if i == *k => {
                    return violation("damage-hidden", format!("{:?}: member {i} is reported despite {hurt:?}", p.flavour));
                }
                Hurt::Content(k) if i == *k => {
                    ensure!(
                        m.data(data).is_err(),
                        "damage-hidden",
                        "{:?}: content of member {i} is reported despite {hurt:?}",
                        p.flavour
                    );
                    ensure!(m.name() == &p.members[i].name[..], "wrong-member-name", "{:?} {hurt:?}", p.flavour);
                    if p.flavour != Flavour::Aix {
                        i += 1;
                        continue;
                    }
                }
                Hurt::Header(k) if i >= *k => {
                    if i > l.len as usize {
                        return violation("endless", format!("{:?}: {i} members in {} bytes", p.flavour, l.len));
                    }
                }
                Hurt::Content(k) if i > *k && p.flavour != Flavour::Aix => {
                    return violation("extra-member", format!("{:?} {hurt:?}: a member behind the end", p.flavour));
                }
                Hurt::Content(k) if i > *k && torn.is_some() => {}
                _ => {
                    ensure!(i < n, "extra-member", "{:?} {hurt:?}", p.flavour);
                    same_member(ctx, p, l, i, &m, data, "damaged archive")?;
                }
            },
        }
        i += 1;
    }
    match hurt {
        Hurt::Member(k) => ensure!(failed && i == k + 1, "damage-hidden", "{:?} {hurt:?}: {i} members", p.flavour),
        Hurt::Symbol(_) | Hurt::SymbolTable => ensure!(i == n, "member-missing", "{:?} {hurt:?}: {i} of {n}", p.flavour),
        _ => {}
    }
    // members next to the damaged one
    for _ in 0..n.min(6) {
        let k = ctx.c.idx(n);
        let whole = torn.is_none_or(|t| l.headers[k] + if p.flavour == Flavour::Aix { 112 } else { 60 } <= t && l.ranges[k].0 + l.ranges[k].1 <= t);
        let hit = matches!(hurt, Hurt::Member(j) | Hurt::Content(j) | Hurt::Header(j) if *j == k);
        match (a.member(ArchiveOffset(l.headers[k])), hit) {
            (Ok(m), false) if whole => same_member(ctx, p, l, k, &m, data, "damaged archive, by offset")?,
            (Err(e), false) if whole => {
                return violation("member-lost", format!("{:?} {hurt:?}: member {k} by offset: {e}", p.flavour));
            }
            (Ok(_), true) if matches!(hurt, Hurt::Member(_)) => {
                return violation("damage-hidden", format!("{:?}: member {k} by offset despite {hurt:?}", p.flavour));
            }
            _ => {}
        }
    }
    let stored = p.stored_symbols();
    match hurt {
        Hurt::SymbolTable => ensure!(a.symbols().is_err(), "damage-hidden", "{:?}: {hurt:?}", p.flavour),
        Hurt::Symbol(k) => symbols_damaged(ctx, p, l, &a, &stored, *k)?,
        _ => {}
    }
    Ok(())
}

fn symbols_damaged<'d, D: ReadRef<'d>>(
    _ctx: &mut Ctx,
    p: &Plan,
    l: &Laid,
    a: &ArchiveFile<'d, D>,
    stored: &Option<Vec<(Vec<u8>, usize)>>,
    bad: usize,
) -> R {
    let want = stored.as_ref().unwrap();
    let Ok(Some(it)) = a.symbols() else {
        return violation("symbols-lost", format!("{:?} with one damaged symbol", p.flavour));
    };
    let mut i = 0;
    for s in it {
        match s {
            Ok(s) => {
                ensure!(i != bad, "damage-hidden", "{:?}: damaged symbol {i} is reported", p.flavour);
                ensure!(
                    i < want.len() && s.name() == &want[i].0[..] && s.offset().0 == l.headers[want[i].1],
                    "wrong-symbol",
                    "{:?}: symbol {i} next to damaged symbol {bad}",
                    p.flavour
                );
            }
            Err(e) => ensure!(i == bad, "symbol-lost", "{:?}: symbol {i} next to damaged {bad}: {e}", p.flavour),
        }
        i += 1;
    }
    ensure!(i == want.len(), "symbol-missing", "{:?}: {i} of {}", p.flavour, want.len());
    Ok(())
}

fn c12_damaged(ctx: &mut Ctx) -> R {
    let p = gen_plan(ctx, false);
    let l = p.lay();
    let mut data = l.flat();
    note(ctx, &p, &l);
    let Some(hurt) = damage(ctx, &p, &l, &mut data) else { return Ok(()) };
    let torn = ((data.len() as u64) < l.len).then_some(data.len() as u64);
    ctx.ev(|| {
        let at = data.len().min(match hurt {
            Hurt::Member(i) | Hurt::Content(i) | Hurt::Header(i) => l.headers[i] as usize,
            _ => 0,
        });
        format!("{hurt:?} torn {torn:?}: {:?}", String::from_utf8_lossy(&data[at..data.len().min(at + 120)]))
    });
    ctx.fault(match hurt {
        _ if torn.is_some() => "torn",
        Hurt::Member(_) => "bad_header",
        Hurt::Content(_) => "bad_size",
        Hurt::Symbol(_) => "bad_symbol",
        Hurt::SymbolTable => "bad_symbol_count",
        Hurt::Archive => "bad_index",
        Hurt::Header(_) => "byte",
    });
    ctx.sig(fnv(&data));
    ctx.fold_bytes(&data);
    damaged(ctx, &p, &l, &hurt, &data[..], torn)?;
    let cfg = SourceCfg::benign(ctx);
    let again: *mut Ctx = ctx;
    through_stream(ctx, &data, cfg, |r| damaged(unsafe { &mut *again }, &p, &l, &hurt, r, torn))
}

pub fn props(v: &mut Vec<crate::runner::Prop>) {
    v.push(crate::runner::Prop {
        id: "C12",
        level: "exploration",
        rule: "distinct archives",
        scenarios: vec![("archive", 4, c12_archive as _), ("sparse", 1, c12_sparse as _), ("damaged", 3, c12_damaged as _)],
        real: &["src/read/archive.rs", "src/archive.rs", "src/read/read_cache.rs", "src/read/mod.rs FileKind"],
        stub: &["the archive writer", "the stored file and its stream (simulated source under the real ReadCache)"],
        assumptions: &[
            "symbol indexes of AIX big and z/OS archives are documented as not implemented: they read as empty",
        ],
        quick_secs: 30,
        thorough_secs: 600,
    });
}
