//! C16: a dyld shared cache split over several files is one address space.
//!
//! The cache is laid out by the encoder below, which keeps the whole layout as the model; everything the reader says
//! about it is compared with the model.
use crate::choices::fnv;
use crate::ctx::{Ctx, R, violation};
use crate::ensure;
use crate::simio::{SimRef, SimSource, SourceCfg, Src, World};
use object::macho::PtrauthKey;
use object::read::macho::{DyldCache, DyldSubCacheSlice};
use object::read::{ExportTarget, FileKind, ReadCache};
use object::{Architecture, Endianness, Object, ObjectSection, ObjectSegment, ObjectSymbol};
use std::io::Write as _;

type Auth = (u8, u16, bool);

#[derive(Clone, Debug, PartialEq)]
struct Reloc {
    off: u64,
    value: u64,
    auth: Option<Auth>,
}

#[derive(Clone, Debug, Default)]
struct Map {
    file: usize,
    addr: u64,
    off: u64,
    size: u64,
    max: u32,
    init: u32,
    /// where slide information starts and its declared size
    slide: Option<(u64, u64)>,
    /// the slide information is of a version that is not supported
    slide_bad: bool,
    relocs: Vec<Reloc>,
    /// the next unused byte, relative to the start
    used: u64,
}

#[derive(Clone, Debug)]
struct Sect {
    name: Vec<u8>,
    addr: u64,
    size: u64,
    /// (file, offset)
    at: Option<(usize, u64)>,
    plain: Option<Vec<u8>>,
    flags: u32,
}

#[derive(Clone, Debug)]
struct Seg {
    name: Vec<u8>,
    addr: u64,
    size: u64,
    file: usize,
    off: u64,
    filesz: u64,
    sects: Vec<Sect>,
}

#[derive(Clone, Debug)]
struct Sym {
    name: Vec<u8>,
    value: u64,
    /// one-based, or zero for undefined
    sect: u8,
    global: bool,
}

#[derive(Clone, Debug)]
struct Img {
    path: Vec<u8>,
    addr: u64,
    map: usize,
    segs: Vec<Seg>,
    syms: Vec<Sym>,
    exports: Option<Vec<(Vec<u8>, u64)>>,
    uuid: Option<[u8; 16]>,
}

#[derive(Default)]
pub struct Cache {
    magic: [u8; 16],
    arch: Option<Architecture>,
    be: bool,
    is64: bool,
    /// The main file, the subcaches and perhaps the file of symbols.
    files: Vec<Vec<u8>>,
    hdr: Vec<u32>,
    uuids: Vec<[u8; 16]>,
    subs: usize,
    symbols: bool,
    suffixes: Vec<String>,
    maps: Vec<Map>,
    imgs: Vec<Img>,
}

impl Cache {
    fn put(&mut self, f: usize, at: u64, n: usize, v: u64) {
        let b = v.to_le_bytes();
        for i in 0..n {
            self.files[f][at as usize + if self.be { n - 1 - i } else { i }] = b[i];
        }
    }
    fn put_bytes(&mut self, f: usize, at: u64, b: &[u8]) {
        self.files[f][at as usize..at as usize + b.len()].copy_from_slice(b);
    }
    /// Room at the end of a file.
    fn tail(&mut self, f: usize, n: usize, align: usize) -> u64 {
        let v = &mut self.files[f];
        while v.len() % align != 0 {
            v.push(0xcc);
        }
        let at = v.len();
        v.resize(at + n, 0);
        at as u64
    }
    /// Room in a mapping: its offset in the mapping.
    fn room(&mut self, m: usize, n: u64, align: u64) -> Option<u64> {
        let m = &mut self.maps[m];
        let at = m.used.next_multiple_of(align);
        if at + n > m.size {
            return None;
        }
        m.used = at + n;
        Some(at)
    }
    fn word(&self) -> u64 {
        if self.is64 { 8 } else { 4 }
    }
    fn generation(&self) -> u64 {
        match self.hdr[0] {
            ..0x140 => 0,
            0x140..0x1c8 => 1,
            0x1c8..0x1d0 => 2,
            _ => 3,
        }
    }
}

const ARCHS: &[(&[u8; 16], Architecture, bool, bool)] = &[
    (b"dyld_v1  x86_64\0", Architecture::X86_64, true, false),
    (b"dyld_v1 x86_64h\0", Architecture::X86_64, true, false),
    (b"dyld_v1   arm64\0", Architecture::Aarch64, true, false),
    (b"dyld_v1  arm64e\0", Architecture::Aarch64, true, false),
    (b"dyld_v1    i386\0", Architecture::I386, false, false),
    (b"dyld_v1     ppc\0", Architecture::PowerPc, false, true),
    (b"dyld_v1   armv6\0", Architecture::Arm, false, false),
    (b"dyld_v1   armv7\0", Architecture::Arm, false, false),
    (b"dyld_v1  armv7f\0", Architecture::Arm, false, false),
    (b"dyld_v1  armv7s\0", Architecture::Arm, false, false),
    (b"dyld_v1  armv7k\0", Architecture::Arm, false, false),
];

fn uuid(ctx: &mut Ctx) -> [u8; 16] {
    let mut u = [0; 16];
    u[..8].copy_from_slice(&(ctx.c.u64() | 1).to_le_bytes());
    u[8..].copy_from_slice(&ctx.c.u64().to_le_bytes());
    u
}

fn fill(v: &mut [u8], seed: u64) {
    let mut s = seed | 1;
    for b in v {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *b = (s >> 56) as u8;
    }
}

fn uleb(mut v: u64, out: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

/// An exports trie with one level.
fn trie(l: &[(Vec<u8>, u64)]) -> Vec<u8> {
    let node = |a: u64| {
        let mut p = Vec::new();
        uleb(0, &mut p);
        uleb(a, &mut p);
        let mut n = Vec::new();
        uleb(p.len() as u64, &mut n);
        n.extend(p);
        n.push(0);
        n
    };
    // offsets of the children have two bytes each
    let head = 2 + l.iter().map(|(n, _)| n.len() + 1 + 2).sum::<usize>();
    let mut out = vec![0, l.len() as u8];
    let mut at = head;
    let mut tail = Vec::new();
    for (n, a) in l {
        out.extend(n);
        out.push(0);
        out.push((at & 0x7f) as u8 | 0x80);
        out.push((at >> 7) as u8);
        let k = node(*a);
        at += k.len();
        tail.extend(k);
    }
    out.extend(tail);
    out
}

/// Lay out a cache.
pub fn build(ctx: &mut Ctx, single: bool) -> Cache {
    let (magic, arch, is64, be) = if ctx.c.chance(2, 3) { ARCHS[ctx.c.idx(4)] } else { ARCHS[ctx.c.idx(ARCHS.len())] };
    let mut k = Cache { magic: *magic, arch: Some(arch), is64, be, ..Default::default() };
    let h0 = *ctx.c.pick(&[0x1d0u32, 0x1c8, 0x200, 0x208, 0x228, 0x68, 0x98, 0x138, 0x140, 0x188, 0x1c0]);
    k.hdr.push(h0);
    let generation = k.generation();
    if generation >= 2 && !single {
        k.subs = ctx.c.size(5) as usize;
        k.symbols = ctx.c.chance(1, 3);
    }
    let n = 1 + k.subs + usize::from(k.symbols);
    for i in 0..n {
        if i > 0 {
            // companions have a generation of their own, which decides about their table of mappings only
            let h = if ctx.c.chance(1, 8) { *ctx.c.pick(&[0x98u32, 0x140, 0x1c8, 0x228]) } else { h0 };
            k.hdr.push(h);
        }
        let u = uuid(ctx);
        k.uuids.push(u);
        let mut v = vec![0; 0x228];
        let s = ctx.c.u64();
        fill(&mut v, s);
        v[..16].copy_from_slice(magic);
        v[0x58..0x68].copy_from_slice(&u);
        v[0x190..0x1a0].fill(0);
        k.files.push(v);
    }
    // Mappings, at addresses in another order than that of the files.
    let shared = 1 + ctx.c.below(4);
    for f in 0..n {
        let count = if k.symbols && f == n - 1 { ctx.c.below(2) } else if f == 0 { 1 + ctx.c.below(shared) } else { ctx.c.below(shared + 1) };
        for _ in 0..count {
            let size = match ctx.c.below(8) {
                0 => ctx.c.below(64),
                _ => 0x200 + ctx.c.below(0x30) * 0x100,
            };
            let max = ctx.c.below(8) as u32;
            k.maps.push(Map { file: f, size, max, init: max & ctx.c.below(8) as u32, ..Default::default() });
        }
    }
    let mut order: Vec<usize> = (0..k.maps.len()).collect();
    for i in (1..order.len()).rev() {
        let j = ctx.c.idx(i + 1);
        if ctx.c.chance(1, 2) {
            order.swap(i, j);
        }
    }
    let mut addr = if is64 { *ctx.c.pick(&[0x1_8000_0000u64, 0x7fff_2000_0000, 0x1000, 0]) } else { *ctx.c.pick(&[0x9000_0000u64, 0x1000, 0]) };
    for i in order {
        k.maps[i].addr = addr;
        addr += k.maps[i].size;
        if ctx.c.chance(1, 2) {
            addr = addr.next_multiple_of(0x1000) + ctx.c.below(3) * 0x1000;
        } else {
            addr = addr.next_multiple_of(16);
        }
    }
    for i in 0..k.maps.len() {
        let f = k.maps[i].file;
        let size = k.maps[i].size as usize;
        let at = k.tail(f, size, 16);
        let s = ctx.c.u64();
        fill(&mut k.files[f][at as usize..], s);
        k.maps[i].off = at;
    }
    // Images
    let usable: Vec<usize> = (0..k.maps.len()).filter(|i| !(k.symbols && k.maps[*i].file == n - 1)).collect();
    for j in 0..ctx.c.size(5) {
        image(ctx, &mut k, &usable, j);
    }
    // Pointers
    if is64 {
        for i in 0..k.maps.len() {
            if k.hdr[k.maps[i].file] >= 0x140 && ctx.c.chance(1, 2) {
                slide(ctx, &mut k, i);
            }
        }
    }
    // Tables
    let paths: Vec<Vec<u8>> = k.imgs.iter().map(|i| i.path.clone()).collect();
    let mut at_path = Vec::new();
    for p in &paths {
        let at = k.tail(0, p.len() + 1, 1);
        k.put_bytes(0, at, p);
        at_path.push(at);
    }
    let table = k.tail(0, 32 * k.imgs.len(), 8);
    for (j, at) in at_path.iter().enumerate() {
        let a = k.imgs[j].addr;
        let (r1, r2) = (ctx.c.u64(), ctx.c.u64());
        let e = table + 32 * j as u64;
        k.put(0, e, 8, a);
        k.put(0, e + 8, 8, r1);
        k.put(0, e + 16, 8, r2);
        k.put(0, e + 24, 4, *at);
    }
    let count = k.imgs.len() as u64;
    for f in 0..n {
        let h = k.hdr[f];
        let maps: Vec<Map> = k.maps.iter().filter(|m| m.file == f).cloned().collect();
        // an old header is followed by the table of mappings
        let old = if h < 0x140 {
            let need = h as usize + 32 * maps.len();
            if need > 0x228 {
                // does not fit in front of the data: the table would cover it
                None
            } else {
                Some(u64::from(h))
            }
        } else {
            Some(k.tail(f, 32 * maps.len(), 8))
        };
        let Some(mut old) = old else { unreachable!("too many mappings for the header") };
        k.put(f, 0x10, 4, u64::from(h));
        k.put(f, 0x14, 4, maps.len() as u64);
        if h >= 0x140 {
            // the old table is there too, where the header ends
            if h as usize + 32 * maps.len() <= 0x228 {
                old = u64::from(h);
            }
            let t = k.tail(f, 56 * maps.len(), 8);
            k.put(f, 0x138, 4, t);
            k.put(f, 0x13c, 4, maps.len() as u64);
            for (j, m) in maps.iter().enumerate() {
                let e = t + 56 * j as u64;
                k.put(f, e, 8, m.addr);
                k.put(f, e + 8, 8, m.size);
                k.put(f, e + 16, 8, m.off);
                let (so, ss) = m.slide.unwrap_or((ctx.c.u64(), 0));
                k.put(f, e + 24, 8, so);
                k.put(f, e + 32, 8, ss);
                let flags = ctx.c.below(64);
                k.put(f, e + 40, 8, flags);
                k.put(f, e + 48, 4, m.max.into());
                k.put(f, e + 52, 4, m.init.into());
            }
        }
        if h < 0x140 || old != u64::from(h) {
            for (j, m) in maps.iter().enumerate() {
                let e = old + 32 * j as u64;
                k.put(f, e, 8, m.addr);
                k.put(f, e + 8, 8, m.size);
                k.put(f, e + 16, 8, m.off);
                k.put(f, e + 24, 4, m.max.into());
                k.put(f, e + 28, 4, m.init.into());
            }
        }
        if h >= 0x1c8 {
            let zero = ctx.c.chance(1, 2);
            if zero {
                k.put(f, 0x18, 8, 0);
            }
            if f == 0 {
                k.put(f, 0x1c0, 4, table);
                k.put(f, 0x1c4, 4, count);
            }
        } else if f == 0 {
            k.put(f, 0x18, 4, table);
            k.put(f, 0x1c, 4, count);
        }
    }
    if generation >= 2 {
        if k.symbols {
            let u = k.uuids[n - 1];
            k.put_bytes(0, 0x190, &u);
        }
        let size = if generation == 2 { 24 } else { 56 };
        let t = k.tail(0, size * k.subs, 8);
        k.put(0, 0x188, 4, t);
        k.put(0, 0x18c, 4, k.subs as u64);
        for j in 0..k.subs {
            let e = t + (size * j) as u64;
            let u = k.uuids[j + 1];
            k.put_bytes(0, e, &u);
            let o = ctx.c.u64();
            k.put(0, e + 16, 8, o);
            if generation == 3 {
                let s = match ctx.c.below(4) {
                    0 => format!(".{}", j + 1),
                    1 => format!(".{:02}.dylddata", j),
                    2 => "x".repeat(32),
                    _ => format!(".{:02}.development", j + 1),
                };
                k.put_bytes(0, e + 24, s.as_bytes());
                k.suffixes.push(s);
            } else {
                k.suffixes.push(format!(".{}", j + 1));
            }
        }
        if k.symbols {
            k.suffixes.push(".symbols".into());
        }
    }
    k
}

/// An image whose segments lie in any of the mappings.
fn image(ctx: &mut Ctx, k: &mut Cache, usable: &[usize], j: u64) {
    let w = k.word();
    let mut names = vec![&b"__TEXT"[..]];
    for n in [&b"__DATA"[..], b"__AUTH", b"__DATA_CONST"] {
        if ctx.c.chance(1, 2) {
            names.push(n);
        }
    }
    let linkedit = ctx.c.chance(7, 8);
    let sects: Vec<u64> = names.iter().map(|_| ctx.c.below(4)).collect();
    let with_uuid = ctx.c.chance(2, 3);
    let exports = if linkedit { ctx.c.below(3) } else { 0 };
    let syms = linkedit && ctx.c.chance(3, 4);
    let (seg_size, sec_size, head) = if k.is64 { (72u64, 80u64, 32u64) } else { (56, 68, 28) };
    let mut cmds = names.len() as u64 * seg_size + sects.iter().sum::<u64>() * sec_size;
    let mut ncmds = names.len() as u64;
    if linkedit {
        cmds += seg_size;
        ncmds += 1;
    }
    for (there, n) in [(with_uuid, 24), (syms, 24), (exports == 1, 16), (exports == 2, 48)] {
        if there {
            cmds += n;
            ncmds += 1;
        }
    }
    let pick = |ctx: &mut Ctx, k: &mut Cache, n: u64, align: u64| -> Option<(usize, u64)> {
        let first = ctx.c.idx(usable.len());
        (0..usable.len()).find_map(|d| {
            let m = usable[(first + d) % usable.len()];
            k.room(m, n, align).map(|at| (m, at))
        })
    };
    let extra = ctx.c.below(64);
    let Some((tm, tat)) = pick(ctx, k, head + cmds + extra, 16) else { return };
    let addr = k.maps[tm].addr + tat;
    let mut segs: Vec<Seg> = Vec::new();
    for (i, name) in names.iter().enumerate() {
        // the text segment starts with the header
        let extra = 1 + ctx.c.below(0x300);
        let (m, at, n) = if i == 0 {
            let n = if k.room(tm, extra, 1).is_some() { k.maps[tm].used - tat } else { head + cmds };
            (tm, tat, n)
        } else {
            match pick(ctx, k, extra, 16) {
                Some((m, at)) => (m, at, extra),
                None => return,
            }
        };
        let base = if i == 0 { head + cmds } else { 0 };
        let map = k.maps[m].clone();
        let mut s = Seg { name: name.to_vec(), addr: map.addr + at, size: n, file: map.file, off: map.off + at, filesz: n, sects: Vec::new() };
        if i > 0 && ctx.c.chance(1, 6) {
            s.filesz = 0;
        }
        let mut p = base;
        for q in 0..sects[i] {
            let left = n - p;
            let size = ctx.c.below(left + 1);
            let zero = s.filesz == 0 || ctx.c.chance(1, 6);
            let mut sec = Sect {
                name: format!("__s{i}_{q}").into_bytes(),
                addr: s.addr + p,
                size,
                at: if zero { None } else { Some((s.file, s.off + p)) },
                plain: None,
                flags: u32::from(zero),
            };
            if !zero && ctx.c.chance(1, 4) {
                // compressed, if it fits
                let mut plain = vec![0; ctx.c.below(400) as usize];
                fill(&mut plain, 7);
                plain.iter_mut().for_each(|b| *b &= 3);
                let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::fast());
                e.write_all(&plain).unwrap();
                let z = e.finish().unwrap();
                let mut d = b"ZLIB".to_vec();
                d.extend((plain.len() as u64).to_be_bytes());
                d.extend(z);
                if d.len() as u64 <= left {
                    sec.size = d.len() as u64;
                    sec.name = format!("__zdebug_{i}{q}").into_bytes();
                    k.put_bytes(s.file, s.off + p, &d);
                    sec.plain = Some(plain);
                }
            }
            p += sec.size;
            s.sects.push(sec);
        }
        segs.push(s);
    }
    let flat: Vec<Sect> = segs.iter().flat_map(|s| s.sects.clone()).collect();
    let mut img = Img { path: Vec::new(), addr, map: tm, segs, syms: Vec::new(), exports: None, uuid: None };
    // Link-edit data
    let mut strtab = vec![0u8];
    let mut nlist = Vec::new();
    if syms {
        for q in 0..ctx.c.below(6) {
            let sect = ctx.c.below(flat.len() as u64 + 1) as u8;
            let value = if sect == 0 { 0 } else { flat[sect as usize - 1].addr + ctx.c.below(flat[sect as usize - 1].size + 1) };
            let s = Sym { name: format!("_sym{j}_{q}").into_bytes(), value, sect, global: sect == 0 || ctx.c.chance(1, 2) };
            nlist.push(strtab.len() as u64);
            strtab.extend(&s.name);
            strtab.push(0);
            img.syms.push(s);
        }
    }
    let mut tr = Vec::new();
    if exports > 0 {
        let mut l: Vec<(Vec<u8>, u64)> = (0..ctx.c.below(5)).map(|q| (format!("{}_exp{j}", (b'a' + q as u8) as char).into_bytes(), ctx.c.below(0x4000))).collect();
        tr = if l.is_empty() { vec![0, 0] } else { trie(&l) };
        for e in &mut l {
            e.1 += img.addr;
        }
        img.exports = Some(l);
    }
    let nl = if k.is64 { 16u64 } else { 12 };
    let total = nl * img.syms.len() as u64 + tr.len() as u64 + strtab.len() as u64 + 16;
    let mut places = (0, 0, 0);
    if linkedit {
        let Some((m, at)) = pick(ctx, k, total, 16) else { return };
        let map = k.maps[m].clone();
        let off = map.off + at;
        places = (off, off + nl * img.syms.len() as u64, off + nl * img.syms.len() as u64 + strtab.len() as u64);
        for (q, s) in img.syms.clone().iter().enumerate() {
            let e = places.0 + nl * q as u64;
            k.put(map.file, e, 4, nlist[q]);
            let ty = if s.sect == 0 { 1 } else { 0xe | u64::from(s.global) };
            k.put(map.file, e + 4, 1, ty);
            k.put(map.file, e + 5, 1, s.sect.into());
            k.put(map.file, e + 6, 2, 0);
            k.put(map.file, e + 8, w as usize, s.value);
        }
        k.put_bytes(map.file, places.1, &strtab);
        k.put_bytes(map.file, places.2, &tr);
        img.segs.push(Seg { name: b"__LINKEDIT".to_vec(), addr: map.addr + at, size: total, file: map.file, off, filesz: total, sects: Vec::new() });
    }
    // Header and load commands
    let f = k.maps[tm].file;
    let mut at = k.maps[tm].off + tat;
    let (cpu, sub) = match k.arch.unwrap() {
        Architecture::X86_64 => (0x0100_0007, 3),
        Architecture::Aarch64 => (0x0100_000c, 2),
        Architecture::I386 => (7, 3),
        Architecture::PowerPc => (18, 0),
        _ => (12, 9),
    };
    for v in [if k.is64 { 0xfeed_facfu64 } else { 0xfeed_face }, cpu, sub, 6, ncmds, cmds, 0x8000_0085] {
        k.put(f, at, 4, v);
        at += 4;
    }
    if k.is64 {
        k.put(f, at, 4, 0);
        at += 4;
    }
    for s in img.segs.clone() {
        let n = s.sects.len() as u64;
        k.put(f, at, 4, if k.is64 { 0x19 } else { 1 });
        k.put(f, at + 4, 4, seg_size + sec_size * n);
        let mut name = [0; 16];
        name[..s.name.len()].copy_from_slice(&s.name);
        k.put_bytes(f, at + 8, &name);
        at += 24;
        for v in [s.addr, s.size, s.off, s.filesz] {
            k.put(f, at, w as usize, v);
            at += w;
        }
        for v in [7, 3, n, 0] {
            k.put(f, at, 4, v);
            at += 4;
        }
        for c in &s.sects {
            let mut sn = [0; 16];
            sn[..c.name.len()].copy_from_slice(&c.name);
            k.put_bytes(f, at, &sn);
            k.put_bytes(f, at + 16, &name);
            at += 32;
            k.put(f, at, w as usize, c.addr);
            k.put(f, at + w, w as usize, c.size);
            at += 2 * w;
            for v in [c.at.map_or(0, |a| a.1), 0, 0, 0, c.flags.into(), 0, 0] {
                k.put(f, at, 4, v);
                at += 4;
            }
            if k.is64 {
                k.put(f, at, 4, 0);
                at += 4;
            }
        }
    }
    if with_uuid {
        let u = uuid(ctx);
        k.put(f, at, 4, 0x1b);
        k.put(f, at + 4, 4, 24);
        k.put_bytes(f, at + 8, &u);
        img.uuid = Some(u);
        at += 24;
    }
    if syms {
        for v in [2, 24, places.0, img.syms.len() as u64, places.1, strtab.len() as u64] {
            k.put(f, at, 4, v);
            at += 4;
        }
    }
    if exports == 1 {
        for v in [0x8000_0033, 16, places.2, tr.len() as u64] {
            k.put(f, at, 4, v);
            at += 4;
        }
    }
    if exports == 2 {
        for v in [0x8000_0022, 48, 0, 0, 0, 0, 0, 0, 0, 0, places.2, tr.len() as u64] {
            k.put(f, at, 4, v);
            at += 4;
        }
    }
    img.path = match ctx.c.below(6) {
        0 => Vec::new(),
        1 => format!("/usr/lib/{}/lib{j}.dylib", "d/".repeat(ctx.c.below(400) as usize)).into_bytes(),
        2 => format!("/System/é{j}").into_bytes(),
        _ => format!("/usr/lib/lib{j}.dylib").into_bytes(),
    };
    k.imgs.push(img);
}

/// Chains of pointers in the unused part of a mapping.
fn slide(ctx: &mut Ctx, k: &mut Cache, i: usize) {
    let m = k.maps[i].clone();
    let from = m.used.next_multiple_of(8);
    let version = *ctx.c.pick(&[2u64, 3, 5, 5, 3, 2, 1, 4]);
    let page = *ctx.c.pick(&[0x100u64, 0x40, 0x1000, 0x4000, 0x400]);
    let pages = m.size.div_ceil(page);
    let add = *ctx.c.pick(&[0u64, 0x1_8000_0000, 0x7fff_2000_0000, 0x10]);
    // Where pointers are, page by page.
    let grid = if version == 2 { 4 } else { 8 };
    let density = 1 + ctx.c.below(6);
    let mut slots: Vec<Vec<u64>> = vec![Vec::new(); pages as usize];
    let mut at = from;
    while at + 8 <= m.size && slots.iter().map(|s| s.len()).sum::<usize>() < 60 {
        let p = at / page;
        // a pointer does not cross the end of a page
        if at % page + 8 <= page && ctx.c.chance(density, 8) {
            slots[p as usize].push(at - p * page);
            at += 8 + grid * ctx.c.below(3);
        } else {
            at += grid * (1 + ctx.c.below(8));
        }
    }
    let f = m.file;
    let mut relocs = Vec::new();
    let off = m.off;
    let info;
    match version {
        2 => {
            let mask = *ctx.c.pick(&[0x00ff_ff00_0000_0000u64, 0xc000_0000_0000_0000, 0x0000_0ff0_0000_0000, 0xffff_0000_0000_0000]);
            let shift = mask.trailing_zeros();
            let max = (mask >> shift) * 4;
            let mut starts = Vec::new();
            let mut extras: Vec<u64> = Vec::new();
            for (p, l) in slots.iter().enumerate() {
                if l.is_empty() {
                    starts.push(0x4000);
                    continue;
                }
                // chains end where the next pointer is too far, or for no reason
                let mut chains: Vec<Vec<u64>> = vec![vec![l[0]]];
                for w in l.windows(2) {
                    if w[1] - w[0] > max || ctx.c.chance(1, 12) {
                        chains.push(Vec::new());
                    }
                    chains.last_mut().unwrap().push(w[1]);
                }
                if chains.len() == 1 && ctx.c.chance(7, 8) {
                    starts.push(chains[0][0] / 4);
                } else {
                    starts.push(0x8000 | extras.len() as u64);
                    for (n, c) in chains.iter().enumerate() {
                        extras.push(c[0] / 4 | if n + 1 == chains.len() { 0x8000 } else { 0 });
                    }
                }
                for c in &chains {
                    for (n, o) in c.iter().enumerate() {
                        let next = c.get(n + 1).map_or(0, |x| (x - o) / 4);
                        let v = if ctx.c.chance(1, 8) { 0 } else { (ctx.c.u64() >> ctx.c.below(40)) & !mask };
                        let at = p as u64 * page + o;
                        k.put(f, off + at, 8, v | next << shift);
                        if v != 0 {
                            relocs.push(Reloc { off: at, value: v.wrapping_add(add), auth: None });
                        }
                    }
                }
            }
            // the arrays may be anywhere behind
            let (a, b) = (40 + 4 * ctx.c.below(4), 2 * starts.len() as u64 + 2 * ctx.c.below(4));
            let n = a + b + 2 * extras.len() as u64;
            info = k.tail(f, n as usize, 8);
            for (q, v) in [2, page, a, starts.len() as u64, a + b, extras.len() as u64].iter().enumerate() {
                k.put(f, info + 4 * q as u64, 4, *v);
            }
            k.put(f, info + 24, 8, mask);
            k.put(f, info + 32, 8, add);
            for (q, v) in starts.iter().enumerate() {
                k.put(f, info + a + 2 * q as u64, 2, *v);
            }
            for (q, v) in extras.iter().enumerate() {
                k.put(f, info + a + b + 2 * q as u64, 2, *v);
            }
        }
        _ => {
            let mut starts = Vec::new();
            for (p, l) in slots.iter().enumerate() {
                starts.push(l.first().copied().unwrap_or(0xffff));
                for (n, o) in l.iter().enumerate() {
                    let next = l.get(n + 1).map_or(0, |x| (x - o) / 8);
                    let at = p as u64 * page + o;
                    let auth = ctx.c.chance(1, 3);
                    let div = ctx.c.u64() as u16;
                    let addr_div = ctx.c.chance(1, 2);
                    let key = ctx.c.below(4) as u8;
                    let high = if ctx.c.chance(1, 3) { ctx.c.below(256) } else { 0 };
                    let (raw, r) = match (version, auth) {
                        (5, true) => {
                            let t = ctx.c.u64() & 0x3_ffff_ffff;
                            let key = key & 1;
                            (
                                1 << 63 | next << 52 | u64::from(key) << 51 | u64::from(addr_div) << 50 | u64::from(div) << 34 | t,
                                Reloc { off: at, value: t.wrapping_add(add), auth: Some((key * 2, div, addr_div)) },
                            )
                        }
                        (5, false) => {
                            let t = ctx.c.u64() & 0x3_ffff_ffff;
                            (next << 52 | high << 34 | t, Reloc { off: at, value: t.wrapping_add(add) | high << 56, auth: None })
                        }
                        (_, true) => {
                            let t = ctx.c.u64() & 0xffff_ffff;
                            (
                                1 << 63 | next << 51 | u64::from(key) << 49 | u64::from(addr_div) << 48 | u64::from(div) << 32 | t,
                                Reloc { off: at, value: t.wrapping_add(add), auth: Some((key, div, addr_div)) },
                            )
                        }
                        (_, false) => {
                            let t = ctx.c.u64() & ((1 << 43) - 1);
                            (next << 51 | high << 43 | t, Reloc { off: at, value: t | high << 56, auth: None })
                        }
                    };
                    k.put(f, off + at, 8, raw);
                    relocs.push(r);
                }
            }
            let n = 24 + 2 * starts.len();
            info = k.tail(f, n, 8);
            for (q, v) in [version, page, starts.len() as u64].iter().enumerate() {
                k.put(f, info + 4 * q as u64, 4, *v);
            }
            k.put(f, info + 16, 8, add);
            for (q, v) in starts.iter().enumerate() {
                k.put(f, info + 24 + 2 * q as u64, 2, *v);
            }
        }
    }
    let m = &mut k.maps[i];
    m.slide = Some((info, k.files[f].len() as u64 - info));
    m.slide_bad = version == 1 || version == 4;
    m.relocs = relocs;
    m.used = m.size;
}

/// What the reader of a complete set of files must say. With `weak`, it may report errors instead.
fn check<'a>(ctx: &mut Ctx, k: &Cache, worlds: &'a [World<'a>], files: &[SimRef<'a>], weak: bool) -> R {
    macro_rules! ok {
        ($r:expr, $class:expr, $what:expr) => {
            match $r {
                Ok(v) => v,
                Err(e) => {
                    if weak {
                        ctx.probe("refused");
                        return Ok(());
                    }
                    return violation($class, format!("{}: {e}", $what));
                }
            }
        };
    }
    let which = |r: SimRef<'a>| worlds.iter().position(|w| std::ptr::eq(w, r.w)).unwrap();
    let main = files[0];
    if ctx.c.chance(1, 2) {
        let kind = ok!(FileKind::parse(main), "kind", "FileKind");
        ensure!(kind == FileKind::DyldCache, "kind", "the file is {kind:?}");
        let s = ok!(DyldCache::<Endianness, SimRef<'a>>::subcache_suffixes(main), "suffixes", "suffixes");
        ensure!(s == k.suffixes, "suffixes", "suffixes are {s:?}, not {:?}", k.suffixes);
        let h = ok!(object::macho::DyldCacheHeader::<Endianness>::parse(main), "header", "header");
        let e = if k.be { Endianness::Big } else { Endianness::Little };
        let n = match ok!(h.subcaches(e, main), "subcaches", "subcaches") {
            None => (0, 0),
            Some(DyldSubCacheSlice::V1(l)) => (2, l.len()),
            Some(DyldSubCacheSlice::V2(l)) => (3, l.len()),
            Some(_) => (9, 0),
        };
        let want = if k.generation() >= 2 { (k.generation(), k.subs) } else { (0, 0) };
        ensure!(n == want, "subcaches", "subcaches {n:?}, not {want:?}");
    }
    let cache: DyldCache<'a, Endianness, SimRef<'a>> = ok!(DyldCache::parse(main, &files[1..]), "parse", "the cache");
    ensure!(Some(cache.architecture()) == k.arch, "header", "the architecture is {:?}", cache.architecture());
    ensure!(cache.is_little_endian() != k.be && (cache.endianness() == Endianness::Big) == k.be, "header", "the byte order is {:?}", cache.endianness());
    ensure!(which(cache.data()) == 0, "header", "the data is that of file {}", which(cache.data()));
    let maps: Vec<&Map> = k.maps.iter().filter(|m| m.file <= k.subs).collect();
    let wait = ctx.c.below(3);
    let todo = maps.len() + k.imgs.len();
    for _ in 0..1 + ctx.c.below(2 * todo as u64 + 2 + wait) {
        match ctx.c.below(8) {
            0 | 1 => {
                let got: Vec<_> = cache.mappings().collect();
                ensure!(got.len() == maps.len(), "mappings", "{} mappings, not {}", got.len(), maps.len());
                for (g, m) in got.iter().zip(&maps) {
                    let a = (g.address(), g.size(), g.file_offset(), g.max_prot().0, g.init_prot().0);
                    ensure!(a == (m.addr, m.size, m.off, m.max, m.init), "mapping", "mapping {a:x?}, not {m:x?}");
                }
                if got.is_empty() {
                    continue;
                }
                let j = ctx.c.idx(got.len());
                let (g, m) = (&got[j], maps[j]);
                if ctx.c.chance(1, 2) {
                    match g.data() {
                        Ok(d) => {
                            let want = &k.files[m.file][m.off as usize..(m.off + m.size) as usize];
                            ensure!(d == want, "mapping-data", "mapping at {:x} of file {} has other data", m.addr, m.file);
                        }
                        Err(e) => ensure!(weak, "mapping-data", "mapping at {:x}: {e}", m.addr),
                    }
                } else {
                    let mut it = match g.relocations() {
                        Ok(it) => it,
                        Err(e) => {
                            ensure!(weak || m.slide_bad, "relocations", "mapping at {:x}: {e}", m.addr);
                            continue;
                        }
                    };
                    ensure!(!m.slide_bad, "relocations", "mapping at {:x} with unsupported slide information", m.addr);
                    let mut n = 0;
                    loop {
                        match it.next() {
                            None => {
                                ensure!(n == m.relocs.len(), "relocations", "mapping at {:x} has {n} relocations, not {}", m.addr, m.relocs.len());
                                break;
                            }
                            Some(Ok(r)) => {
                                let auth = r.auth.as_ref().map(|a| (match a.key {
                                    PtrauthKey::IA => 0,
                                    PtrauthKey::IB => 1,
                                    PtrauthKey::DA => 2,
                                    PtrauthKey::DB => 3,
                                    _ => 9,
                                }, a.diversity, a.addr_div));
                                let got = Reloc { off: r.offset, value: r.value, auth };
                                ensure!(m.relocs.get(n) == Some(&got), "relocations", "mapping at {:x}: relocation {n} is {got:x?}, not {:x?}", m.addr, m.relocs.get(n));
                                n += 1;
                            }
                            Some(Err(e)) => {
                                ensure!(weak, "relocations", "mapping at {:x}: {e}", m.addr);
                                // an iterator that has failed comes to an end
                                let rest = it.by_ref().take(10_000).count();
                                ensure!(rest < 10_000, "endless", "mapping at {:x}: no end after {e}", m.addr);
                                break;
                            }
                        }
                    }
                }
            }
            2 | 3 => {
                for _ in 0..4 {
                    let a = match ctx.c.below(6) {
                        0 => ctx.c.u64(),
                        1 => u64::MAX,
                        _ if maps.is_empty() => 0,
                        _ => {
                            let m = maps[ctx.c.idx(maps.len())];
                            match ctx.c.below(5) {
                                0 => m.addr,
                                1 => m.addr.wrapping_sub(1),
                                2 => m.addr + m.size,
                                3 => (m.addr + m.size).wrapping_sub(1),
                                _ => m.addr + ctx.c.below(m.size + 1),
                            }
                        }
                    };
                    let want = maps.iter().find(|m| a >= m.addr && a - m.addr < m.size).map(|m| (m.file, a - m.addr + m.off));
                    let got = cache.data_and_offset_for_address(a).map(|(r, o)| (which(r), o));
                    ensure!(got == want, "address", "address {a:x} is at {got:x?}, not {want:x?}");
                }
            }
            _ => {
                let imgs: Vec<_> = cache.images().collect();
                ensure!(imgs.len() == k.imgs.len(), "images", "{} images, not {}", imgs.len(), k.imgs.len());
                if imgs.is_empty() {
                    continue;
                }
                let j = ctx.c.idx(imgs.len());
                let (g, m) = (&imgs[j], &k.imgs[j]);
                let e = if k.be { Endianness::Big } else { Endianness::Little };
                ensure!(g.info().address.get(e) == m.addr, "image", "image {j} at {:x}, not {:x}", g.info().address.get(e), m.addr);
                match g.path() {
                    Ok(p) => ensure!(p.as_bytes() == m.path, "image-path", "image {j} is {p:?}"),
                    // the caching reader gives up on long strings
                    Err(e) => ensure!(weak, "image-path", "image {j}: {e}"),
                }
                match g.image_data_and_offset() {
                    Ok((r, o)) => {
                        let t = &k.maps[m.map];
                        ensure!((which(r), o) == (t.file, m.addr - t.addr + t.off), "image-place", "image {j} is in file {} at {o:x}", which(r));
                    }
                    Err(e) => ensure!(weak, "image-place", "image {j}: {e}"),
                }
                match g.parse_object() {
                    Ok(f) => object(ctx, k, j, m, &f, weak)?,
                    Err(e) => ensure!(weak, "image-object", "image {j}: {e}"),
                }
            }
        }
    }
    ctx.probe("read");
    Ok(())
}

fn object<'a>(ctx: &mut Ctx, k: &Cache, j: usize, m: &Img, f: &object::File<'a, SimRef<'a>>, weak: bool) -> R {
    let e = |x: &dyn std::fmt::Display, what: &str| -> R {
        if weak { Ok(()) } else { violation("image-object", format!("image {j}: {what}: {x}")) }
    };
    ensure!(Some(f.architecture()) == k.arch && f.is_64() == k.is64 && f.is_little_endian() != k.be && f.kind() == object::ObjectKind::Dynamic, "image-object", "image {j}: {:?} {:?}", f.architecture(), f.kind());
    let segs: Vec<_> = f.segments().collect();
    if weak && segs.is_empty() {
        // the load commands could not be read, which leaves an image without contents
        ctx.probe("image_without_commands");
        ensure!(f.sections().next().is_none() && f.symbols().next().is_none(), "image-sections", "image {j}: sections without load commands");
        return Ok(());
    }
    ensure!(segs.len() == m.segs.len(), "image-segments", "image {j}: {} segments, not {}", segs.len(), m.segs.len());
    for (g, s) in segs.iter().zip(&m.segs) {
        let n = g.name_bytes().ok().flatten().map(|n| n.to_vec());
        ensure!(n.as_ref() == Some(&s.name) && (g.address(), g.size(), g.file_range()) == (s.addr, s.size, (s.off, s.filesz)), "image-segments", "image {j}: segment {n:?} {:x} {:x} {:x?}, not {s:x?}", g.address(), g.size(), g.file_range());
        match g.data() {
            Ok(d) => ensure!(d == &k.files[s.file][s.off as usize..(s.off + s.filesz) as usize], "image-segment-data", "image {j}: segment {} has other data", String::from_utf8_lossy(&s.name)),
            Err(x) => e(&x, "segment data")?,
        }
    }
    let want: Vec<(&Seg, &Sect)> = m.segs.iter().flat_map(|s| s.sects.iter().map(move |c| (s, c))).collect();
    let mut got: Vec<_> = f.sections().collect();
    ensure!(got.len() == want.len(), "image-sections", "image {j}: {} sections, not {}", got.len(), want.len());
    // any order, by any way to find them
    if ctx.c.chance(1, 2) && !want.is_empty() {
        let i = ctx.c.idx(want.len());
        match f.section_by_name_bytes(&want[i].1.name) {
            Some(s) => ensure!(s.index() == got[i].index(), "image-sections", "image {j}: section {:?} is the one at {:?}", String::from_utf8_lossy(&want[i].1.name), s.index()),
            None => return violation("image-sections", format!("image {j}: section {i} is not found by name")),
        }
        got.swap_remove(i);
        got.truncate(1);
        got.clear();
    }
    for g in &got {
        let (s, c) = want[g.index().0 - 1];
        let n = g.name_bytes().unwrap_or(b"").to_vec();
        let sn = g.segment_name_bytes().ok().flatten().map(|n| n.to_vec());
        ensure!(n == c.name && sn.as_ref() == Some(&s.name) && (g.address(), g.size()) == (c.addr, c.size), "image-sections", "image {j}: section {n:?} {:x} {:x}, not {c:x?}", g.address(), g.size());
        ensure!(g.file_range() == c.at.map(|a| (a.1, c.size)), "image-sections", "image {j}: section {n:?} at {:x?}, not {:x?}", g.file_range(), c.at);
        let stored = c.at.map_or(&[][..], |(file, o)| &k.files[file][o as usize..(o + c.size) as usize]);
        match g.data() {
            Ok(d) => ensure!(d == stored, "image-section-data", "image {j}: section {} has other data", String::from_utf8_lossy(&c.name)),
            Err(x) => e(&x, "section data")?,
        }
        match g.uncompressed_data() {
            Ok(d) => ensure!(d == c.plain.as_deref().unwrap_or(stored), "image-section-contents", "image {j}: section {} has other contents", String::from_utf8_lossy(&c.name)),
            Err(x) => e(&x, "section contents")?,
        }
        match g.compressed_data() {
            Ok(d) => ensure!(d.data == &stored[if c.plain.is_some() { 12 } else { 0 }..], "image-section-contents", "image {j}: section {} has other compressed data", String::from_utf8_lossy(&c.name)),
            Err(x) => e(&x, "compressed data")?,
        }
    }
    let syms: Vec<_> = f.symbols().collect();
    if weak && syms.is_empty() {
        // the symbol table could not be read
    } else {
        ensure!(syms.len() == m.syms.len(), "image-symbols", "image {j}: {} symbols, not {}", syms.len(), m.syms.len());
    }
    for (g, s) in syms.iter().zip(&m.syms) {
        match g.name_bytes() {
            Ok(n) => ensure!(n == s.name, "image-symbols", "image {j}: symbol {n:?}, not {s:x?}"),
            Err(x) => e(&x, "symbol name")?,
        }
        ensure!(
            g.address() == s.value && g.section_index().map_or(0, |i| i.0) == s.sect as usize && g.is_undefined() == (s.sect == 0) && g.is_global() == s.global,
            "image-symbols", "image {j}: symbol {:x} {:?}, not {s:x?}", g.address(), g.section_index()
        );
    }
    if let Some(want) = &m.exports {
        let mut got = Vec::new();
        let mut all = true;
        match f.exports() {
            Ok(mut it) => loop {
                match it.next() {
                    None => break,
                    Some(Ok(x)) => {
                        let n = match x.name() {
                            object::read::NameOrOrdinal::Name(n) => n.to_vec(),
                            _ => Vec::new(),
                        };
                        let a = match x.target() {
                            ExportTarget::Address { address } => Some(address),
                            _ => None,
                        };
                        got.push((n, a.unwrap_or(u64::MAX)));
                    }
                    Some(Err(x)) => {
                        e(&x, "exports")?;
                        all = false;
                        break;
                    }
                }
            },
            Err(x) => {
                e(&x, "exports")?;
                all = false;
            }
        }
        for g in &got {
            ensure!(want.contains(g), "image-exports", "image {j}: export {:?} {:x} of {want:x?}", String::from_utf8_lossy(&g.0), g.1);
        }
        ensure!(!all || got.len() == want.len(), "image-exports", "image {j}: {} exports, not {}", got.len(), want.len());
    }
    match f.mach_uuid() {
        Ok(u) => ensure!(u == m.uuid || weak && u.is_none(), "image-uuid", "image {j}: UUID {u:x?}, not {:x?}", m.uuid),
        Err(x) => e(&x, "UUID")?,
    }
    ctx.probe("image_parsed");
    Ok(())
}

/// Give the files to the reader in the way the run says.
fn reading(ctx: &mut Ctx, k: &Cache, data: &[Vec<u8>], cfg: Option<SourceCfg>, weak: bool, f: &mut dyn for<'a> FnMut(&mut Ctx, &Cache, &'a [World<'a>], &[SimRef<'a>], bool) -> R) -> R {
    let worlds: Vec<World<'_>> = data.iter().map(|d| World::new(ctx, d, cfg.unwrap_or_default())).collect();
    let worlds = &worlds[..];
    // The caches must outlive what was read through them.
    let caches: Vec<ReadCache<SimSource>> = worlds.iter().map(|w| ReadCache::new(SimSource::new(w))).collect();
    let caches = &caches[..];
    // Safety: worlds and caches outlive every use below.
    let worlds: &'static [World<'static>] = unsafe { std::mem::transmute(worlds) };
    let caches: &'static [ReadCache<SimSource>] = unsafe { std::mem::transmute(caches) };
    let refs: Vec<SimRef<'static>> = worlds
        .iter()
        .zip(caches)
        .map(|(w, c)| SimRef { w, src: if cfg.is_some() { Src::Cache(c) } else { Src::Slice(w.data) } })
        .collect();
    let r = f(ctx, k, worlds, &refs, weak);
    for w in worlds {
        w.check_held()?;
    }
    // what the streams said was already compared with the files; the first disagreement explains the others
    let lost = worlds.iter().any(|w| w.fired.get() > 0 || w.limited.get());
    for w in worlds {
        if w.mismatch.borrow().is_some() && !lost {
            w.take_mismatch()?;
        }
    }
    match r {
        Err(v) if lost && !weak => {
            let _ = v;
            Ok(())
        }
        r => r,
    }
}

fn signature(ctx: &mut Ctx, k: &Cache) {
    let mut h = 0u64;
    for f in &k.files {
        h = h.rotate_left(5) ^ fnv(f);
    }
    ctx.sig(h);
    let (f, m, i) = (k.files.len(), k.maps.len(), k.imgs.len());
    ctx.ev(|| format!("{} header {:x} {f} files {m} mappings {i} images", String::from_utf8_lossy(&k.magic), k.hdr[0]));
}

/// A cache in one file.
pub fn file(ctx: &mut Ctx) -> Vec<u8> {
    build(ctx, true).files.remove(0)
}

/// Damaged caches of several files: no panic, no endless work, bounded memory, and all ways of reading agree.
pub fn damaged(ctx: &mut Ctx) -> R {
    use crate::observe::Obs;
    use crate::sc_read::{Traced, compare, damage, drawn_queries, observe};
    use crate::view::View;
    let k = build(ctx, false);
    let mut data = k.files.clone();
    let logs: Vec<_> = data.iter().map(|_| std::cell::RefCell::new(Vec::new())).collect();
    {
        let t: Vec<Traced<'_>> = data.iter().zip(&logs).map(|(data, log)| Traced { data, log }).collect();
        if let Ok(v) = View::open(t[0], &t[1..]) {
            logs.iter().for_each(|l| l.borrow_mut().clear());
            let plan = v.plan();
            for q in drawn_queries(ctx, &plan, 3) {
                v.query(q, &mut Obs::new(data[0].len()));
            }
        }
    }
    let n = data.len();
    for _ in 0..=ctx.c.below(2) {
        let i = ctx.c.idx(n);
        let (d, aims) = (&mut data[i], &logs[i].borrow()[..]);
        damage(ctx, d, &k.files[(i + 1) % n], aims);
    }
    let len: usize = data.iter().map(|d| d.len()).sum();
    let mut h = 0u64;
    data.iter().for_each(|d| h = h.rotate_left(5) ^ fnv(d));
    ctx.sig(h);
    let worlds: Vec<World<'_>> = data.iter().map(|d| World::new(ctx, d, SourceCfg::default())).collect();
    let slices: Vec<SimRef<'_>> = worlds.iter().map(|w| SimRef { w, src: Src::Slice(w.data) }).collect();
    let mem = View::open(slices[0], &slices[1..]);
    let stream = ctx.c.chance(1, 3);
    let mut want = Vec::new();
    if let Ok(v) = &mem {
        ctx.probe(v.kind());
        let plan = v.plan();
        let declared = crate::sc_read::declared_by(v);
        for q in drawn_queries(ctx, &plan, 60) {
            crate::env::mem_reset();
            let o = crate::env::with_alloc_limit(1 << 28, || observe(v, q, len))?;
            let (peak, _) = crate::env::mem_peak();
            let bound = ((len as i64) * 40_000 + (64 << 20)).saturating_add(declared);
            ensure!(peak < bound, "unbounded-memory", "{q:?} used {peak} bytes for {len}");
            ctx.steps += o.out.len() as u64;
            want.push((q, o));
        }
    } else {
        ctx.probe("does_not_open");
    }
    if stream {
        let cfg = SourceCfg::benign(ctx);
        let opens = mem.is_ok();
        let w = &mut want;
        return reading(ctx, &k, &data, Some(cfg), false, &mut |_, _, worlds, r, _| match View::open(r[0], &r[1..]) {
            Ok(v) => {
                ensure!(opens, "sources-disagree", "opens through streams only");
                for (q, want) in w.iter() {
                    let got = crate::env::with_alloc_limit(1 << 28, || observe(&v, *q, len))?;
                    for w in worlds {
                        w.take_mismatch()?;
                    }
                    let limited = worlds.iter().any(|w| w.limited.get());
                    compare("cache", *q, &got, want, limited).map_err(|v| crate::ctx::Violation { class: "sources-disagree".into(), ..v })?;
                }
                Ok(())
            }
            Err(e) => {
                ensure!(!opens || worlds.iter().any(|w| w.limited.get()), "sources-disagree", "opens in memory only: {e}");
                Ok(())
            }
        });
    }
    Ok(())
}

/// Complete caches, read through memory or well-behaved streams.
fn whole(ctx: &mut Ctx) -> R {
    let k = build(ctx, false);
    signature(ctx, &k);
    let cfg = if ctx.c.chance(1, 2) { Some(SourceCfg::benign(ctx)) } else { None };
    let data = k.files.clone();
    reading(ctx, &k, &data, cfg, false, &mut |c, k, w, r, weak| check(c, k, w, r, weak))
}

/// Complete caches behind failing streams: errors, never anything else than the truth.
fn failing(ctx: &mut Ctx) -> R {
    let k = build(ctx, false);
    signature(ctx, &k);
    let cfg = SourceCfg::faulty(ctx);
    let data = k.files.clone();
    reading(ctx, &k, &data, Some(cfg), true, &mut |c, k, w, r, weak| check(c, k, w, r, weak))
}

/// Companions that are missing, too many, in the wrong order, of another cache, or cut short.
fn companions(ctx: &mut Ctx) -> R {
    let k = build(ctx, false);
    signature(ctx, &k);
    let cfg = if ctx.c.chance(1, 3) { Some(SourceCfg::benign(ctx)) } else { None };
    let mut data = k.files.clone();
    let n = data.len() - 1;
    let refused = |c: &mut Ctx, _: &Cache, _: &[World<'_>], r: &[SimRef<'_>], _: bool| -> R {
        match DyldCache::<Endianness, SimRef<'_>>::parse(r[0], &r[1..]) {
            Ok(_) => violation("wrong-companions", "accepted with the wrong companions"),
            Err(_) => {
                c.probe("refused");
                Ok(())
            }
        }
    };
    match ctx.c.below(6) {
        0 if n > 0 => {
            ctx.fault("companion_missing");
            let i = 1 + ctx.c.idx(n);
            data.remove(i);
        }
        1 => {
            ctx.fault("companion_extra");
            let i = ctx.c.idx(n + 1);
            let d = data[i].clone();
            data.insert(1 + ctx.c.idx(n + 1), d);
        }
        2 if n > 1 => {
            ctx.fault("companions_swapped");
            let i = 1 + ctx.c.idx(n - 1);
            data.swap(i, i + 1);
        }
        3 if n > 0 => {
            ctx.fault("companion_of_other_cache");
            let i = 1 + ctx.c.idx(n);
            let b = ctx.c.below(128) as usize;
            data[i][0x58 + b / 8] ^= 1 << (b % 8);
        }
        4 if n > 0 => {
            ctx.fault("companion_is_main");
            let i = 1 + ctx.c.idx(n);
            data[i] = data[0].clone();
        }
        _ => {
            ctx.fault("file_cut_short");
            let i = ctx.c.idx(n + 1);
            let l = data[i].len();
            let cut = if ctx.c.chance(1, 3) { ctx.c.below(64) as usize } else { ctx.c.idx(l) };
            data[i].truncate(l.saturating_sub(cut + 1));
            return reading(ctx, &k, &data, cfg, true, &mut |c, k, w, r, weak| check(c, k, w, r, weak));
        }
    }
    reading(ctx, &k, &data, cfg, false, &mut |c, k, w, r, weak| refused(c, k, w, r, weak))
}

pub fn props(v: &mut Vec<crate::runner::Prop>) {
    v.push(crate::runner::Prop {
        id: "C16",
        level: "exploration",
        rule: "distinct caches",
        scenarios: vec![("whole", 4, whole as _), ("failing", 2, failing as _), ("companions", 3, companions as _)],
        real: &["src/read/macho/dyld_cache.rs", "src/read/macho", "src/read/any.rs", "src/read/read_cache.rs", "src/macho.rs"],
        stub: &["the files of the cache (simulated streams or memory)"],
        assumptions: &["caches are laid out by the simulator's own encoder; no cache made by Apple's tools is available offline"],
        quick_secs: 40,
        thorough_secs: 900,
    });
}
