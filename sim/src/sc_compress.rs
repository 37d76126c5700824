//! Compressed sections (C15): contents compressed by independent encoders, stored by the real writer, read through
//! memory and simulated streams, with damage, wrong sizes, lost tails and failing allocations.
use crate::choices::fnv;
use crate::corpus::{CORPUS, ZSTD};
use crate::ctx::{Ctx, R, violation};
use crate::describe::Target;
use crate::ensure;
use crate::env::{with_alloc_failure, with_alloc_limit};
use crate::simio::{SourceCfg, through_stream};
use object::read::{CompressedData, CompressionFormat as F, File, Object, ObjectSection, ReadRef};
use object::write::{Object as WObject, SectionFlags};
use object::{BinaryFormat as B, Endianness as E, SectionKind};
use std::io::Write as _;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Plain,
    ElfZlib,
    ElfZstd,
    /// the older format, by name
    Gnu,
    /// the format is not known
    ElfOther(u32),
    /// the name asks for a header that is not there
    GnuBad,
    /// flagged compressed, but too short for a header
    ElfShort,
}

#[derive(Clone, Debug)]
struct Sec {
    name: Vec<u8>,
    kind: Kind,
    plain: Vec<u8>,
    header: Vec<u8>,
    payload: Vec<u8>,
    declared: u64,
    align: u64,
    /// `payload` is everything that the encoder made, and nothing else
    whole: bool,
}
impl Sec {
    fn stored(&self) -> Vec<u8> {
        [&self.header[..], &self.payload[..]].concat()
    }
    fn format(&self) -> F {
        match self.kind {
            Kind::ElfZlib | Kind::Gnu => F::Zlib,
            Kind::ElfZstd => F::Zstandard,
            _ => F::None,
        }
    }
    fn refused(&self) -> bool {
        matches!(self.kind, Kind::ElfOther(_) | Kind::GnuBad | Kind::ElfShort)
    }
}

fn plain(ctx: &mut Ctx) -> Vec<u8> {
    let max = match ctx.c.below(60) {
        0 => 3_000_000,
        1..=8 => 200_000,
        _ => 4000,
    };
    let n = ctx.c.size(max) as usize;
    match ctx.c.below(5) {
        0 => ctx.c.bytes(n),
        1 => vec![ctx.c.below(256) as u8; n],
        2 => {
            let k = 1 + ctx.c.below(40) as usize;
            let b = ctx.c.bytes(k);
            b.iter().cycle().take(n).copied().collect()
        }
        3 => {
            let mut r = crate::choices::Prng::new(ctx.c.u64());
            (0..n).map(|_| b"etaoin shrdlu\n"[(r.below(14) * r.below(14) / 14) as usize]).collect()
        }
        _ => {
            let f = CORPUS[ctx.c.idx(CORPUS.len())].1;
            let a = ctx.c.idx(f.len().max(1));
            f[a..f.len().min(a + n)].to_vec()
        }
    }
}

fn zlib(ctx: &mut Ctx, p: &[u8]) -> Vec<u8> {
    let level = flate2::Compression::new(ctx.c.below(10) as u32);
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), level);
    let mut at = 0;
    let parts = 1 + ctx.c.below(4) as usize;
    for k in 0..parts {
        let end = if k + 1 == parts { p.len() } else { at + ctx.c.idx(p.len() - at + 1) };
        e.write_all(&p[at..end]).unwrap();
        if ctx.c.chance(1, 3) {
            e.flush().unwrap();
        }
        at = end;
    }
    e.finish().unwrap()
}

/// A zstandard frame made of raw and run-length blocks.
fn zstd_frame(ctx: &mut Ctx, p: &[u8], v: &mut Vec<u8>) {
    v.extend(0xFD2F_B528u32.to_le_bytes());
    let fcs = if p.len() < 256 && ctx.c.chance(1, 2) {
        0u8
    } else if (256..65792).contains(&p.len()) && ctx.c.chance(1, 2) {
        1
    } else {
        2 + ctx.c.below(2) as u8
    };
    let single = fcs == 0 || ctx.c.chance(1, 2);
    let no_size = !single && ctx.c.chance(1, 2);
    let fcs = if no_size { 0 } else { fcs };
    v.push(fcs << 6 | (single as u8) << 5);
    if !single {
        // a window as big as the content
        let log = (p.len().max(1024) as u64).next_power_of_two().trailing_zeros() as u8;
        v.push((log - 10) << 3);
    }
    if !no_size {
        match fcs {
            0 => v.push(p.len() as u8),
            1 => v.extend(((p.len() - 256) as u16).to_le_bytes()),
            2 => v.extend((p.len() as u32).to_le_bytes()),
            _ => v.extend((p.len() as u64).to_le_bytes()),
        }
    }
    // blocks may be as big as the window allows, and no bigger than this
    let limit = (128 << 10).min(if single { p.len().max(1) } else { usize::MAX });
    let mut at = 0;
    loop {
        let left = p.len() - at;
        let run = p[at..].iter().take_while(|b| **b == p[at]).count().min(limit);
        let rle = run > 3 && ctx.c.chance(3, 4);
        let n = if rle {
            run
        } else if left > limit || ctx.c.chance(1, 3) {
            ctx.c.idx(left.min(limit) + 1)
        } else {
            left
        };
        let last = at + n == p.len();
        let h = (n as u32) << 3 | (rle as u32) << 1 | last as u32;
        v.extend(&h.to_le_bytes()[..3]);
        if rle {
            v.push(p[at]);
        } else {
            v.extend(&p[at..at + n]);
        }
        at += n;
        if last {
            return;
        }
    }
}

fn zstd(ctx: &mut Ctx, p: &mut Vec<u8>) -> Vec<u8> {
    match ctx.c.below(5) {
        0 if !ZSTD.is_empty() => {
            // made by the reference encoder
            let (name, z) = ZSTD[ctx.c.idx(ZSTD.len())];
            let (_, file) = name.split_once('~').unwrap();
            match CORPUS.iter().find(|c| c.0 == file) {
                Some(c) => {
                    *p = c.1.to_vec();
                    ctx.probe("zstd_reference_encoder");
                    z.to_vec()
                }
                None => zstd_own(ctx, p),
            }
        }
        1 | 2 => {
            ctx.probe("zstd_second_encoder");
            let level = if ctx.c.chance(1, 5) {
                ruzstd::encoding::CompressionLevel::Uncompressed
            } else {
                ruzstd::encoding::CompressionLevel::Fastest
            };
            ruzstd::encoding::compress_to_vec(&p[..], level)
        }
        _ => zstd_own(ctx, p),
    }
}

fn zstd_own(ctx: &mut Ctx, p: &[u8]) -> Vec<u8> {
    ctx.probe("zstd_handmade");
    let mut v = Vec::new();
    let mut at = 0;
    let frames = if ctx.c.chance(1, 3) { 1 + ctx.c.below(4) as usize } else { 1 };
    for k in 0..frames {
        if ctx.c.chance(1, 8) {
            v.extend((0x184D_2A50u32 + ctx.c.below(16) as u32).to_le_bytes());
            let n = ctx.c.below(40) as usize;
            v.extend((n as u32).to_le_bytes());
            v.extend(ctx.c.bytes(n));
        }
        let end = if k + 1 == frames { p.len() } else { at + ctx.c.idx(p.len() - at + 1) };
        zstd_frame(ctx, &p[at..end], &mut v);
        at = end;
    }
    v
}

fn elf_header(ty: u32, size: u64, align: u64, is64: bool, e: E) -> Vec<u8> {
    let mut v = Vec::new();
    let b4 = |x: u32| if e == E::Big { x.to_be_bytes() } else { x.to_le_bytes() };
    let b8 = |x: u64| if e == E::Big { x.to_be_bytes() } else { x.to_le_bytes() };
    v.extend(b4(ty));
    if is64 {
        v.extend(b4(0));
        v.extend(b8(size));
        v.extend(b8(align));
    } else {
        v.extend(b4(size as u32));
        v.extend(b4(align as u32));
    }
    v
}

fn gnu_header(size: u64) -> Vec<u8> {
    let mut v = b"ZLIB".to_vec();
    v.extend(size.to_be_bytes());
    v
}

struct Case {
    t: Target,
    is64: bool,
    secs: Vec<Sec>,
}

fn gen_case(ctx: &mut Ctx) -> Case {
    let t = loop {
        let t = Target::pick(&mut ctx.c);
        if matches!(t.fmt, B::Elf | B::MachO | B::Coff) {
            break t;
        }
    };
    let is64 = t.fmt == B::Elf && {
        let mut o = WObject::new(t.fmt, t.arch, t.endian);
        o.set_sub_architecture(t.sub);
        o.write().unwrap()[4] == 2
    };
    let n = 1 + ctx.c.below(5);
    let mut secs = Vec::new();
    for i in 0..n {
        let mut p = plain(ctx);
        let kind = match (t.fmt, ctx.c.below(16)) {
            (B::Elf, 0..=4) => Kind::ElfZlib,
            (B::Elf, 5..=9) => Kind::ElfZstd,
            (B::Elf, 10) => Kind::ElfOther(*ctx.c.pick(&[0u32, 3, 4, 0x6000_0000, 0x7000_0000, u32::MAX])),
            (B::Elf, 11) => Kind::ElfShort,
            (B::Elf | B::MachO, 12..=13) => Kind::Gnu,
            (B::Elf | B::MachO, 14) => Kind::GnuBad,
            (B::MachO, 0..=9) => Kind::Gnu,
            _ => Kind::Plain,
        };
        let (header, payload, declared) = match kind {
            Kind::Plain => (Vec::new(), p.clone(), p.len() as u64),
            Kind::ElfZlib => {
                let z = zlib(ctx, &p);
                (elf_header(1, p.len() as u64, 1, is64, t.endian), z, p.len() as u64)
            }
            Kind::ElfZstd => {
                let z = zstd(ctx, &mut p);
                (elf_header(2, p.len() as u64, 8, is64, t.endian), z, p.len() as u64)
            }
            Kind::ElfOther(ty) => (elf_header(ty, p.len() as u64, 1, is64, t.endian), p.clone(), p.len() as u64),
            Kind::ElfShort => {
                let mut h = elf_header(1, 0, 1, is64, t.endian);
                let k = ctx.c.idx(h.len());
                h.truncate(k);
                (h, Vec::new(), 0)
            }
            Kind::Gnu => (gnu_header(p.len() as u64), zlib(ctx, &p), p.len() as u64),
            Kind::GnuBad => {
                let mut h = gnu_header(p.len() as u64);
                match ctx.c.below(3) {
                    0 => h.truncate(ctx.c.idx(12)),
                    1 => h[ctx.c.idx(4)] ^= 1 << ctx.c.below(8),
                    // more than 4 GiB
                    _ => h[4 + ctx.c.idx(4)] = 1 + ctx.c.below(255) as u8,
                }
                let z = if h.len() == 12 { zlib(ctx, &p) } else { Vec::new() };
                (h, z, 0)
            }
        };
        let z = match kind {
            Kind::Gnu | Kind::GnuBad => "z",
            // no flavour but these looks at names
            Kind::Plain if t.fmt == B::Coff && ctx.c.chance(1, 2) => "z",
            _ => "",
        };
        let name = match t.fmt {
            B::MachO => format!("__{z}debug_{}", ["info", "line", "abbrev", "str", "loc", "x"][i as usize]),
            _ => format!(".{z}debug_{}", ["info", "line", "abbrev", "str", "loc", "x"][i as usize]),
        };
        let align = 1 << ctx.c.below(5);
        secs.push(Sec { name: name.into_bytes(), kind, plain: p, header, payload, declared, align, whole: true });
    }
    Case { t, is64, secs }
}

fn store(c: &Case) -> R<Vec<u8>> {
    let mut o = WObject::new(c.t.fmt, c.t.arch, c.t.endian);
    o.set_sub_architecture(c.t.sub);
    for s in &c.secs {
        let seg = if c.t.fmt == B::MachO { b"__DWARF".to_vec() } else { Vec::new() };
        let id = o.add_section(seg, s.name.clone(), SectionKind::Debug);
        if matches!(s.kind, Kind::ElfZlib | Kind::ElfZstd | Kind::ElfOther(_) | Kind::ElfShort) {
            o.section_mut(id).flags = SectionFlags::Elf {
                sh_type: object::elf::SHT_PROGBITS,
                sh_flags: object::elf::SHF_COMPRESSED,
            };
        }
        o.append_section_data(id, &s.stored(), s.align);
    }
    match o.write() {
        Ok(v) => Ok(v),
        Err(e) => violation("not-written", format!("{:?}: {e}", c.t)),
    }
}

/// Every section must be reported exactly. Returns where the stored bytes of each are.
fn exact<'d, D: ReadRef<'d>>(ctx: &mut Ctx, c: &Case, bytes: &[u8], data: D) -> R<Vec<u64>> {
    let file = match File::parse(data) {
        Ok(f) => f,
        Err(e) => return violation("not-read", format!("{:?}: {e}", c.t)),
    };
    let mut at = Vec::new();
    for s in &c.secs {
        let name = std::str::from_utf8(&s.name).unwrap();
        let Some(sec) = file.section_by_name(name) else {
            return violation("section-lost", format!("{:?}: {name}", c.t));
        };
        let stored = s.stored();
        let Some((off, size)) = sec.file_range() else {
            return violation("section-lost", format!("{:?}: {name} has no file range", c.t));
        };
        ensure!(
            size == stored.len() as u64 && bytes.get(off as usize..(off + size) as usize) == Some(&stored[..]),
            "wrong-stored-range",
            "{:?} {name}: {off:#x} {size:#x} are not the {} stored bytes",
            c.t,
            stored.len()
        );
        at.push(off);
        match sec.data() {
            Ok(d) => ensure!(d == &stored[..], "wrong-stored-data", "{:?} {name}: data() is not what is stored", c.t),
            Err(e) => return violation("wrong-stored-data", format!("{:?} {name}: {e}", c.t)),
        }
        let range = sec.compressed_file_range();
        if s.refused() {
            ensure!(
                range.is_err() && sec.compressed_data().is_err() && sec.uncompressed_data().is_err(),
                "bad-header-accepted",
                "{:?} {name} {:?}: {range:?}",
                c.t,
                s.kind
            );
            continue;
        }
        let range = match range {
            Ok(r) => r,
            Err(e) => return violation("compressed-refused", format!("{:?} {name} {:?}: {e}", c.t, s.kind)),
        };
        let want = (s.format(), off + s.header.len() as u64, s.payload.len() as u64, s.declared);
        let got = (range.format, range.offset, range.compressed_size, range.uncompressed_size);
        // an empty section has no place in the file
        ensure!(
            got == want || (stored.is_empty() && got.0 == want.0 && got.2 == 0 && got.3 == 0),
            "wrong-compressed-range",
            "{:?} {name} {:?}: format, offset, sizes {got:?} instead of {want:?}",
            c.t,
            s.kind
        );
        let cd = match sec.compressed_data() {
            Ok(x) => x,
            Err(e) => return violation("compressed-refused", format!("{:?} {name} {:?}: {e}", c.t, s.kind)),
        };
        let by_range = range.data(data);
        ensure!(by_range == Ok(cd), "compressed-data-differs", "{:?} {name}: by range and by section", c.t);
        ensure!(
            cd.format == want.0 && cd.data == &s.payload[..] && cd.uncompressed_size == s.declared,
            "wrong-compressed-data",
            "{:?} {name} {:?}: {:?} {} bytes to {}",
            c.t,
            s.kind,
            cd.format,
            cd.data.len(),
            cd.uncompressed_size
        );
        // memory may run out first
        if s.format() != F::None && s.declared > 0 && ctx.c.chance(1, 3) {
            let (r, fired) = with_alloc_failure(0, 1, s.declared as usize, || cd.decompress());
            if fired {
                ctx.fault("allocation");
                ensure!(r.is_err(), "allocation-failure-hidden", "{:?} {name}: {} bytes", c.t, s.declared);
            }
        }
        for r in [cd.decompress(), sec.uncompressed_data()] {
            match r {
                Ok(d) => ensure!(
                    d[..] == s.plain[..],
                    "wrong-content",
                    "{:?} {name} {:?}: {} bytes that are not the original {}",
                    c.t,
                    s.kind,
                    d.len(),
                    s.plain.len()
                ),
                Err(e) => return violation("decompress-failed", format!("{:?} {name} {:?}: {e}", c.t, s.kind)),
            }
        }
        ctx.probe(&format!("{:?}:{}", c.t.fmt, kind_name(s.kind)));
        // under its usual name
        if s.kind == Kind::Gnu {
            let usual = format!(".{}", &name[3 - (c.t.fmt == B::Elf) as usize..].trim_start_matches('z'));
            match file.section_by_name(&usual) {
                Some(x) => ensure!(x.index() == sec.index(), "wrong-alias", "{:?} {usual} is not {name}", c.t),
                None => return violation("alias-lost", format!("{:?} {usual} does not find {name}", c.t)),
            }
        }
    }
    Ok(at)
}

fn kind_name(k: Kind) -> &'static str {
    match k {
        Kind::Plain => "plain",
        Kind::ElfZlib => "zlib",
        Kind::ElfZstd => "zstd",
        Kind::Gnu => "gnu",
        _ => "refused",
    }
}

fn note(ctx: &mut Ctx, c: &Case, bytes: &[u8]) {
    ctx.ev(|| {
        let s: Vec<String> = c
            .secs
            .iter()
            .map(|s| format!("{} {:?} {}->{}", String::from_utf8_lossy(&s.name), s.kind, s.plain.len(), s.payload.len()))
            .collect();
        format!("{:?} 64-bit {}: {s:?}", c.t, c.is64)
    });
    ctx.sig(fnv(bytes));
    ctx.fold_bytes(bytes);
}

/// A file with compressed sections.
pub fn file(ctx: &mut Ctx) -> R<Vec<u8>> {
    let c = gen_case(ctx);
    store(&c)
}

fn c15_exact(ctx: &mut Ctx) -> R {
    let c = gen_case(ctx);
    let bytes = store(&c)?;
    note(ctx, &c, &bytes);
    exact(ctx, &c, &bytes, &bytes[..])?;
    let cfg = SourceCfg::benign(ctx);
    let again: *mut Ctx = ctx;
    through_stream(ctx, &bytes, cfg, |r| exact(unsafe { &mut *again }, &c, &bytes, r).map(|_| ()))
}

/// `got` for a section whose stored form is no longer what the encoder made.
fn judge(c: &Case, s: &Sec, what: &str, got: object::read::Result<std::borrow::Cow<'_, [u8]>>) -> R {
    let Ok(d) = got else { return Ok(()) };
    ensure!(
        d.len() as u64 == s.declared,
        "wrong-length",
        "{:?} {:?} {what}: {} bytes, declared {}",
        c.t,
        s.kind,
        d.len(),
        s.declared
    );
    if s.whole {
        ensure!(
            d.len() <= s.plain.len() && d[..] == s.plain[..d.len()],
            "invented-content",
            "{:?} {:?} {what}: {} bytes that are not a prefix of the original {}",
            c.t,
            s.kind,
            d.len(),
            s.plain.len()
        );
    }
    Ok(())
}

fn c15_damaged(ctx: &mut Ctx) -> R {
    let mut c = gen_case(ctx);
    let (t, is64) = (c.t, c.is64);
    let i = ctx.c.idx(c.secs.len());
    let s = &mut c.secs[i];
    if matches!(s.kind, Kind::Plain) || s.refused() {
        return Ok(());
    }
    let n = s.plain.len() as u64;
    let what = match ctx.c.below(8) {
        0 => {
            // declared too small
            if n == 0 {
                return Ok(());
            }
            s.declared = ctx.c.below(n);
            "size_too_small"
        }
        1 => {
            s.declared = n + 1 + ctx.c.size(2 * n + 100);
            "size_too_big"
        }
        2 => {
            s.declared = if is64 && s.kind != Kind::Gnu && ctx.c.chance(2, 3) {
                *ctx.c.pick(&[1u64 << 32, 1 << 47, 1 << 62, u64::MAX >> 1, u64::MAX, n | 1 << 32])
            } else {
                *ctx.c.pick(&[0x7fff_ffffu64, 0x8000_0000, 0xffff_ffff])
            };
            "size_huge"
        }
        3 => {
            let keep = ctx.c.idx(s.payload.len().max(1));
            s.payload.truncate(keep);
            "payload_cut"
        }
        4 => {
            let k = 1 + ctx.c.below(20) as usize;
            let x = ctx.c.bytes(k);
            s.payload.extend(x);
            "trailing_bytes"
        }
        5 => {
            if s.kind == Kind::Gnu {
                return Ok(());
            }
            s.kind = if s.kind == Kind::ElfZlib { Kind::ElfZstd } else { Kind::ElfZlib };
            s.whole = false;
            "wrong_format"
        }
        _ => {
            if s.payload.is_empty() {
                return Ok(());
            }
            for _ in 0..1 + ctx.c.below(3) {
                let k = if ctx.c.chance(1, 3) { ctx.c.idx(s.payload.len().min(16)) } else { ctx.c.idx(s.payload.len()) };
                s.payload[k] = if ctx.c.chance(1, 2) { s.payload[k] ^ (1 << ctx.c.below(8)) } else { ctx.c.below(256) as u8 };
            }
            s.whole = false;
            "payload_damage"
        }
    };
    s.header = match s.kind {
        Kind::Gnu => gnu_header(s.declared),
        k => elf_header(if k == Kind::ElfZlib { 1 } else { 2 }, s.declared, 1, is64, t.endian),
    };
    if !is64 || s.kind == Kind::Gnu {
        s.declared &= 0xffff_ffff;
    }
    ctx.fault(what);
    let bytes = store(&c)?;
    note(ctx, &c, &bytes);
    ctx.ev(|| format!("section {i}: {what}"));
    let s = &c.secs[i];
    let name = std::str::from_utf8(&s.name).unwrap();
    let seen = |file: &File<'_, crate::simio::SimRef<'_>>| -> R<Option<Vec<u8>>> {
        let sec = match file.section_by_name(name) {
            Some(x) => x,
            None => return violation("section-lost", format!("{:?} {name}", c.t)),
        };
        // nothing but a buffer of the declared size may be asked for; more than this is not there
        let r = with_alloc_limit(1 << 28, || sec.uncompressed_data());
        let v = r.as_ref().ok().map(|d| d.to_vec());
        judge(&c, s, what, r)?;
        Ok(v)
    };
    let direct = {
        let f = match File::parse(&bytes[..]) {
            Ok(f) => f,
            Err(e) => return violation("not-read", format!("{:?}: {e}", c.t)),
        };
        let sec = f.section_by_name(name).unwrap();
        let r = with_alloc_limit(1 << 28, || sec.uncompressed_data());
        let v = r.as_ref().ok().map(|d| d.to_vec());
        judge(&c, s, what, r)?;
        // the same bytes given by hand
        let by_hand = CompressedData { format: s.format(), data: &s.payload, uncompressed_size: s.declared };
        let r = with_alloc_limit(1 << 28, || by_hand.decompress());
        ensure!(
            r.as_ref().ok().map(|d| d.to_vec()) == v,
            "answers-differ",
            "{:?} {name} {what}: by hand and from the file",
            c.t
        );
        v
    };
    ctx.probe(if direct.is_some() { "damaged:answer" } else { "damaged:error" });
    let cfg = SourceCfg::benign(ctx);
    through_stream(ctx, &bytes, cfg, |r| {
        let f = match File::parse(r) {
            Ok(f) => f,
            Err(e) => return violation("not-read", format!("{:?}: {e}", c.t)),
        };
        let streamed = seen(&f)?;
        ensure!(streamed == direct, "answers-differ", "{:?} {name} {what}: memory and stream", c.t);
        Ok(())
    })?;
    // the same file without its end
    let torn = ctx.c.idx(bytes.len());
    let cut = &bytes[..torn];
    if let Ok(f) = File::parse(cut) {
        if let Some(sec) = f.section_by_name(name) {
            let r = with_alloc_limit(1 << 28, || sec.uncompressed_data());
            ctx.fault("torn");
            judge(&c, s, "torn", r)?;
        }
    }
    Ok(())
}

pub fn props(v: &mut Vec<crate::runner::Prop>) {
    v.push(crate::runner::Prop {
        id: "C15",
        level: "exploration",
        rule: "distinct files",
        scenarios: vec![("exact", 3, c15_exact as _), ("damaged", 3, c15_damaged as _)],
        real: &[
            "src/read/mod.rs CompressedData, CompressedFileRange",
            "src/read/elf/compression.rs",
            "src/read/gnu_compression.rs",
            "src/read/{elf,macho,coff}/section.rs",
            "src/write (container)",
            "flate2, ruzstd (decoders)",
        ],
        stub: &[
            "zlib and zstandard encoders (flate2, ruzstd, the reference encoder at development time, hand-made frames)",
            "the stored file and its stream (simulated source under the real ReadCache)",
            "the allocator's refusals",
        ],
        assumptions: &[
            "only the allocation of the declared size is made to fail: allocations inside the decoders abort by design of their crates",
        ],
        quick_secs: 30,
        thorough_secs: 600,
    });
}
