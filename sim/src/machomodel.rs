//! An independent reading of Mach-O files, for comparing what a builder wrote with what it was to write.
use crate::elfmodel::{Rd, lossy};

pub const MH_OBJECT: u32 = 1;
pub const TWOLEVEL: u32 = 0x80;
pub const X86: u32 = 7;
pub const X86_64: u32 = 0x0100_0007;
pub const ARM: u32 = 12;
pub const ARM64: u32 = 0x0100_000c;
pub const ARM64_32: u32 = 0x0200_000c;
pub const CODE_SIGNATURE: u32 = 0x1d;
pub const N_STAB: u8 = 0xe0;
/// Debugging symbols that name a section.
pub const SECT_STABS: &[u8] = &[0x24, 0x26, 0x28, 0x2e, 0x44, 0x4e, 0x64, 0x84, 0xa4, 0xe4, 0xe8];

#[derive(Clone, Debug)]
pub struct Seg {
    pub name: [u8; 16],
    pub vmaddr: u64,
    pub vmsize: u64,
    pub fileoff: u64,
    pub filesize: u64,
    pub prot: (u32, u32),
    pub flags: u32,
    pub secs: Vec<usize>,
    pub deleted: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Target {
    Sym(usize),
    Sec(usize),
    /// A number stored in the place of a target.
    Num(u32),
}

#[derive(Clone, Copy, Debug)]
pub struct Rel {
    pub addr: u32,
    pub target: Target,
    pub pcrel: bool,
    pub len: u8,
    pub ty: u8,
}

#[derive(Clone, Copy, Debug)]
pub enum Ind {
    Sym(usize),
    Flags(u32),
}

#[derive(Clone, Debug)]
pub struct Sec {
    pub name: [u8; 16],
    pub seg: [u8; 16],
    pub addr: u64,
    pub size: u64,
    pub offset: u64,
    pub align: u32,
    pub flags: u32,
    pub stub: u32,
    pub data: Option<Vec<u8>>,
    pub relocs: Vec<Rel>,
    pub inds: Vec<Ind>,
    pub deleted: bool,
    pub added: bool,
}

impl Sec {
    pub fn ty(&self) -> u32 {
        self.flags & 0xff
    }
    pub fn zero(&self) -> bool {
        matches!(self.ty(), 1 | 12 | 18)
    }
    /// Size of what an indirect symbol stands for, if there are any.
    pub fn ind_size(&self, is64: bool) -> Option<u64> {
        match self.ty() {
            6 | 7 | 16 | 20 => Some(if is64 { 8 } else { 4 }),
            8 => Some(u64::from(self.stub)),
            _ => None,
        }
    }
    pub fn label(&self) -> String {
        format!("{},{}", lossy(nul(&self.seg)), lossy(nul(&self.name)))
    }
}

pub fn nul(b: &[u8; 16]) -> &[u8] {
    &b[..b.iter().position(|x| *x == 0).unwrap_or(16)]
}

#[derive(Clone, Debug)]
pub struct Sym {
    pub name: Vec<u8>,
    pub ty: u8,
    pub sect: Option<usize>,
    pub nsect: u8,
    pub desc: u16,
    pub value: u64,
    pub lib: Option<usize>,
    pub deleted: bool,
}

impl Sym {
    pub fn stab(&self) -> bool {
        self.ty & N_STAB != 0
    }
    /// Local, external or undefined.
    pub fn group(&self) -> u8 {
        if !self.stab() && self.ty & 0xe == 0 {
            2
        } else if self.ty & 0x11 == 1 {
            1
        } else {
            0
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dylib {
    pub cmd: u32,
    pub name: Vec<u8>,
    pub ts: u32,
    pub cur: u32,
    pub compat: u32,
    pub deleted: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cmd {
    Seg(usize),
    Symtab,
    Dysymtab,
    Dylib(usize),
    Id(Dylib),
    Build { platform: u32, minos: u32, sdk: u32, tools: Vec<(u32, u32)> },
    Blob(u32, Vec<u8>),
    DyldInfo([Vec<u8>; 5]),
    Other(u32, Vec<u8>),
}

impl Cmd {
    pub fn is_dylib(cmd: u32) -> bool {
        matches!(cmd, 0xc | 0x8000_0018 | 0x8000_001f | 0x20 | 0x8000_0023)
    }
    pub fn is_blob(cmd: u32) -> bool {
        matches!(cmd, 0x1d | 0x1e | 0x26 | 0x29 | 0x2b | 0x2e | 0x36 | 0x37 | 0x8000_0033 | 0x8000_0034)
    }
    /// Kept as they are.
    pub fn is_other(cmd: u32) -> bool {
        matches!(cmd, 0xe | 0x2a | 0x8000_0028 | 0x1b | 0x21 | 0x2c)
    }
}

#[derive(Clone, Debug)]
pub struct Model {
    pub be: bool,
    pub is64: bool,
    pub cpu: u32,
    pub cpusub: u32,
    pub filetype: u32,
    pub flags: u32,
    pub cmds: Vec<Cmd>,
    pub segs: Vec<Seg>,
    pub secs: Vec<Sec>,
    pub syms: Vec<Sym>,
    pub dylibs: Vec<Dylib>,
    pub len: u64,
    pub cmds_end: u64,
    /// Pieces of link-edit data: offset, length, what.
    pub pieces: Vec<(u64, u64, String)>,
    pub problems: Vec<String>,
    /// Something the builder says it does not support.
    pub unsupported: Option<String>,
    pub dysymtab: Option<[u32; 6]>,
}

impl Model {
    pub fn word(&self) -> u64 {
        if self.is64 { 8 } else { 4 }
    }
    pub fn is_pair(&self, ty: u8) -> bool {
        match self.cpu {
            X86_64 => ty == 5,
            ARM64 | ARM64_32 => ty == 1 || ty == 10,
            _ => false,
        }
    }

    pub fn parse(d: &[u8]) -> Option<Model> {
        let magic = u32::from_be_bytes(d.get(..4)?.try_into().ok()?);
        let (be, is64) = match magic {
            0xfeed_face => (true, false),
            0xcefa_edfe => (false, false),
            0xfeed_facf => (true, true),
            0xcffa_edfe => (false, true),
            _ => return None,
        };
        let r = Rd { d, be, is64 };
        let (cpu, cpusub, filetype, n, size, flags) = (r.u32(4)?, r.u32(8)?, r.u32(12)?, r.u32(16)?, r.u32(20)?, r.u32(24)?);
        let head = if is64 { 32 } else { 28 };
        let mut m = Model {
            be,
            is64,
            cpu,
            cpusub,
            filetype,
            flags,
            cmds: vec![],
            segs: vec![],
            secs: vec![],
            syms: vec![],
            dylibs: vec![],
            len: d.len() as u64,
            cmds_end: head + u64::from(size),
            pieces: vec![],
            problems: vec![],
            unsupported: (filetype == 10).then(|| "a debugging companion file".into()),
            dysymtab: None,
        };
        let mut raw = Vec::new();
        let mut p = head;
        for _ in 0..n {
            let (cmd, len) = (r.u32(p)?, u64::from(r.u32(p + 4)?));
            let body = r.bytes(p, len)?;
            if len < 8 || p + len > m.cmds_end {
                return None;
            }
            if len % 4 != 0 {
                m.problems.push(format!("command {cmd:x} has the odd size {len:x}"));
            }
            raw.push((cmd, p, body));
            p += len;
        }
        if p != m.cmds_end {
            m.problems.push(format!("the commands end at {p:x}, not at {:x}", m.cmds_end));
        }
        // first what others refer to
        let mut sym = None;
        let mut indirect: Vec<u32> = vec![];
        for &(cmd, p, body) in &raw {
            match cmd {
                2 => sym = Some((u64::from(r.u32(p + 8)?), u64::from(r.u32(p + 12)?), u64::from(r.u32(p + 16)?), u64::from(r.u32(p + 20)?))),
                0xb => {
                    let mut v = [0; 6];
                    for (i, x) in v.iter_mut().enumerate() {
                        *x = r.u32(p + 8 + 4 * i as u64)?;
                    }
                    m.dysymtab = Some(v);
                    for f in [32, 40, 48, 64, 72] {
                        if r.u32(p + f + 4)? != 0 {
                            m.unsupported = Some("a table of dysymtab".into());
                        }
                    }
                    let (o, n) = (u64::from(r.u32(p + 56)?), u64::from(r.u32(p + 60)?));
                    for i in 0..n {
                        indirect.push(r.u32(o + 4 * i)?);
                    }
                    if n > 0 {
                        m.pieces.push((o, 4 * n, "indirect symbols".into()));
                    }
                }
                c if Cmd::is_dylib(c) || c == 0xd => {
                    let o = u64::from(r.u32(p + 8)?);
                    let name = r.cstr(p + o, p + body.len() as u64).or_else(|| r.bytes(p + o, body.len() as u64 - o))?.to_vec();
                    let l = Dylib { cmd, name, ts: r.u32(p + 12)?, cur: r.u32(p + 16)?, compat: r.u32(p + 20)?, deleted: false };
                    if c == 0xd {
                        m.cmds.push(Cmd::Id(l));
                    } else {
                        m.cmds.push(Cmd::Dylib(m.dylibs.len()));
                        m.dylibs.push(l);
                    }
                }
                _ => {}
            }
        }
        let mut listed = std::mem::take(&mut m.cmds).into_iter();
        let mut pos_secs = Vec::new();
        for &(cmd, p, body) in &raw {
            let c = match cmd {
                1 | 0x19 => {
                    let w = cmd == 0x19;
                    if w != is64 {
                        m.problems.push("a segment command of the other width".into());
                        return None;
                    }
                    let name: [u8; 16] = r.bytes(p + 8, 16)?.try_into().ok()?;
                    let s = if w { 8 } else { 4 };
                    let a = |i: u64| r.word(p + 24 + s * i);
                    let t = p + 24 + 4 * s;
                    let mut g = Seg {
                        name,
                        vmaddr: a(0)?,
                        vmsize: a(1)?,
                        fileoff: a(2)?,
                        filesize: a(3)?,
                        prot: (r.u32(t)?, r.u32(t + 4)?),
                        flags: r.u32(t + 12)?,
                        secs: vec![],
                        deleted: false,
                    };
                    let n = u64::from(r.u32(t + 8)?);
                    let step = if w { 80 } else { 68 };
                    if t + 16 + n * step != p + body.len() as u64 {
                        m.problems.push(format!("the size of segment command {} is wrong", lossy(nul(&name))));
                    }
                    for i in 0..n {
                        g.secs.push(pos_secs.len());
                        pos_secs.push(t + 16 + i * step);
                    }
                    m.segs.push(g);
                    Cmd::Seg(m.segs.len() - 1)
                }
                2 => Cmd::Symtab,
                0xb => Cmd::Dysymtab,
                c if Cmd::is_dylib(c) || c == 0xd => listed.next()?,
                0x32 => {
                    let n = u64::from(r.u32(p + 20)?);
                    let mut tools = vec![];
                    for i in 0..n {
                        tools.push((r.u32(p + 24 + 8 * i)?, r.u32(p + 28 + 8 * i)?));
                    }
                    Cmd::Build { platform: r.u32(p + 8)?, minos: r.u32(p + 12)?, sdk: r.u32(p + 16)?, tools }
                }
                c if Cmd::is_blob(c) => {
                    let (o, n) = (u64::from(r.u32(p + 8)?), u64::from(r.u32(p + 12)?));
                    m.pieces.push((o, n, format!("data of command {c:x}")));
                    Cmd::Blob(c, r.bytes(o, n)?.to_vec())
                }
                0x8000_0022 => {
                    let mut v: [Vec<u8>; 5] = Default::default();
                    for (i, v) in v.iter_mut().enumerate() {
                        let (o, n) = (u64::from(r.u32(p + 8 + 8 * i as u64)?), u64::from(r.u32(p + 12 + 8 * i as u64)?));
                        if n > 0 {
                            m.pieces.push((o, n, format!("dyld information {i}")));
                        }
                        *v = r.bytes(o, n)?.to_vec();
                    }
                    Cmd::DyldInfo(v)
                }
                c => {
                    if !Cmd::is_other(c) {
                        m.unsupported = Some(format!("command {c:x}"));
                    }
                    Cmd::Other(c, body[8..].to_vec())
                }
            };
            m.cmds.push(c);
        }
        // sections
        let nsyms = sym.map_or(0, |s| s.1);
        for (si, p) in pos_secs.iter().enumerate() {
            let p = *p;
            let s = if is64 { 8 } else { 4 };
            let (addr, size) = (r.word(p + 32)?, r.word(p + 32 + s)?);
            let t = p + 32 + 2 * s;
            let (offset, align, reloff, nreloc, flags) = (u64::from(r.u32(t)?), r.u32(t + 4)?, u64::from(r.u32(t + 8)?), u64::from(r.u32(t + 12)?), r.u32(t + 16)?);
            let (res1, res2) = (r.u32(t + 20)?, r.u32(t + 24)?);
            let mut sec = Sec {
                name: r.bytes(p, 16)?.try_into().ok()?,
                seg: r.bytes(p + 16, 16)?.try_into().ok()?,
                addr,
                size,
                offset,
                align,
                flags,
                stub: 0,
                data: None,
                relocs: vec![],
                inds: vec![],
                deleted: false,
                added: false,
            };
            if sec.ty() == 8 {
                sec.stub = res2;
            }
            if !sec.zero() {
                sec.data = Some(r.bytes(offset, size)?.to_vec());
            } else if size > u64::from(u32::MAX) {
                m.unsupported = Some("a zero-filled section of 4GB".into());
            }
            if nreloc > 0 {
                m.pieces.push((reloff, nreloc * 8, format!("relocations of {}", sec.label())));
            }
            for i in 0..nreloc {
                let (w0, w1) = (r.u32(reloff + 8 * i)?, r.u32(reloff + 8 * i + 4)?);
                if w0 >> 31 != 0 && !matches!(cpu, X86_64 | ARM64 | ARM64_32) {
                    m.unsupported = Some("a scattered relocation".into());
                    continue;
                }
                let (num, pcrel, len, ext, ty) = if be {
                    (w1 >> 8, w1 >> 7 & 1, w1 >> 5 & 3, w1 >> 4 & 1, w1 & 15)
                } else {
                    (w1 & 0xff_ffff, w1 >> 24 & 1, w1 >> 25 & 3, w1 >> 27 & 1, w1 >> 28)
                };
                let target = if matches!(cpu, ARM64 | ARM64_32) && ty == 10 {
                    Target::Num(num)
                } else if ext != 0 {
                    if u64::from(num) >= nsyms {
                        m.problems.push(format!("relocation {i} of {} names symbol {num}", sec.label()));
                    }
                    Target::Sym(num as usize)
                } else if num == 0 || num as usize > pos_secs.len() {
                    m.unsupported = Some("a relocation against no section".into());
                    Target::Num(num)
                } else {
                    Target::Sec(num as usize - 1)
                };
                sec.relocs.push(Rel { addr: w0, target, pcrel: pcrel != 0, len: len as u8, ty: ty as u8 });
            }
            if let Some(e) = sec.ind_size(is64) {
                let n = if e == 0 { 0 } else { size / e };
                for i in 0..n {
                    let Some(v) = indirect.get((u64::from(res1) + i) as usize).copied() else {
                        m.problems.push(format!("{} has no indirect symbol {i}", sec.label()));
                        break;
                    };
                    sec.inds.push(if v & 0xc000_0000 != 0 {
                        Ind::Flags(v)
                    } else {
                        if u64::from(v) >= nsyms {
                            m.problems.push(format!("indirect symbol {i} of {} names symbol {v}", sec.label()));
                        }
                        Ind::Sym(v as usize)
                    });
                }
            }
            let _ = si;
            m.secs.push(sec);
        }
        if let Some((o, n, so, sn)) = sym {
            let step = if is64 { 16 } else { 12 };
            m.pieces.push((o, n * step, "symbols".into()));
            m.pieces.push((so, sn, "strings".into()));
            r.bytes(so, sn)?;
            for i in 0..n {
                let q = o + i * step;
                let x = u64::from(r.u32(q)?);
                let (ty, nsect) = (*r.bytes(q + 4, 1)?.first()?, *r.bytes(q + 5, 1)?.first()?);
                let (desc, value) = (r.u16(q + 6)?, r.word(q + 8)?);
                let name = if x == 0 { Vec::new() } else { r.cstr(so + x, so + sn)?.to_vec() };
                let in_sect = ty & N_STAB == 0 && ty & 0xe == 0xe || ty & N_STAB != 0 && nsect != 0 && SECT_STABS.contains(&ty);
                let mut s = Sym { name, ty, sect: None, nsect, desc, value, lib: None, deleted: false };
                if in_sect {
                    if nsect == 0 || usize::from(nsect) > m.secs.len() {
                        m.problems.push(format!("symbol {} is in section {nsect}", lossy(&s.name)));
                    } else {
                        s.sect = Some(usize::from(nsect) - 1);
                    }
                }
                let und = !s.stab() && matches!(ty & 0xe, 0 | 0xc) && value == 0;
                let ord = usize::from(desc >> 8);
                if flags & TWOLEVEL != 0 && und && (1..=m.dylibs.len().min(0xfd)).contains(&ord) {
                    s.lib = Some(ord - 1);
                }
                m.syms.push(s);
            }
        }
        Some(m)
    }
}
