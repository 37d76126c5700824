//! Small files written byte by byte, independent of the writers of the library, for lookups: ELF with symbols, hash
//! and version tables; PE with odd sections and export tables; Mach-O with debugging entries and an exports trie.
use crate::ctx::Ctx;

pub struct W {
    pub v: Vec<u8>,
    pub big: bool,
    pub wide: bool,
}
impl W {
    pub fn new(big: bool, wide: bool) -> W {
        W { v: Vec::new(), big, wide }
    }
    fn n(&mut self, x: u64, w: usize) {
        let b = x.to_le_bytes();
        if self.big {
            self.v.extend(b[..w].iter().rev());
        } else {
            self.v.extend(&b[..w]);
        }
    }
    pub fn u8(&mut self, x: u8) {
        self.v.push(x)
    }
    pub fn u16(&mut self, x: u64) {
        self.n(x, 2)
    }
    pub fn u32(&mut self, x: u64) {
        self.n(x, 4)
    }
    pub fn u64(&mut self, x: u64) {
        self.n(x, 8)
    }
    pub fn w(&mut self, x: u64) {
        if self.wide { self.u64(x) } else { self.u32(x) }
    }
    pub fn pad(&mut self, a: usize) {
        while self.v.len() % a != 0 {
            self.v.push(0)
        }
    }
}

#[derive(Default)]
pub struct Strs {
    pub v: Vec<u8>,
}
impl Strs {
    pub fn new() -> Strs {
        Strs { v: vec![0] }
    }
    pub fn add(&mut self, s: &[u8]) -> u64 {
        if s.is_empty() {
            return 0;
        }
        let at = self.v.len() as u64;
        self.v.extend_from_slice(s);
        self.v.push(0);
        at
    }
}

pub fn sysv_hash(n: &[u8]) -> u32 {
    let mut h = 0u32;
    for c in n {
        h = (h << 4).wrapping_add(*c as u32);
        let g = h & 0xf000_0000;
        if g != 0 {
            h ^= g >> 24;
        }
        h &= !g;
    }
    h
}
pub fn gnu_hash(n: &[u8]) -> u32 {
    n.iter().fold(5381u32, |h, c| h.wrapping_mul(33).wrapping_add(*c as u32))
}

/// Symbol names, some of which collide in one of the two hash functions.
pub fn symbol_name(ctx: &mut Ctx) -> Vec<u8> {
    match ctx.c.below(10) {
        // "Az" and "BY" collide in the GNU function, "a0" and "`@" in the SysV one
        0 => [&b"s"[..], [&b"Az"[..], b"BY", b"CX"][ctx.c.idx(3)], [&b"Az"[..], b"BY"][ctx.c.idx(2)]].concat(),
        1 => [&b"t"[..], [&b"a0"[..], b"`@", b"b "][ctx.c.idx(3)]].concat(),
        2 => format!("f{}", ctx.c.below(4)).into_bytes(),
        3 => {
            let n = 1 + ctx.c.idx(3);
            (0..n).map(|_| b"ab"[ctx.c.idx(2)]).collect()
        }
        4 if ctx.c.chance(1, 3) => vec![0xff, b'x', 0x80 + ctx.c.below(3) as u8],
        5 => format!("_ZN4some4longEv{}", ctx.c.below(1000)).into_bytes(),
        _ => format!("sym{}", ctx.c.below(60)).into_bytes(),
    }
}

struct Sec {
    name: Vec<u8>,
    ty: u32,
    flags: u64,
    addr: u64,
    data: Vec<u8>,
    /// for sections without content
    size: u64,
    link: u32,
    info: u32,
    align: u64,
    entsize: u64,
    off: u64,
}
impl Sec {
    fn new(name: &[u8], ty: u32, data: Vec<u8>) -> Sec {
        Sec { name: name.to_vec(), ty, flags: 0, addr: 0, size: data.len() as u64, data, link: 0, info: 0, align: 1, entsize: 0, off: 0 }
    }
}

struct Sym {
    name: Vec<u8>,
    value: u64,
    size: u64,
    info: u8,
    other: u8,
    shndx: u32,
}

fn put_syms(ctx: &mut Ctx, syms: &[Sym], strs: &mut Strs, big: bool, wide: bool) -> Vec<u8> {
    let mut w = W::new(big, wide);
    for s in syms {
        let n = strs.add(&s.name);
        w.u32(n);
        if wide {
            w.u8(s.info);
            w.u8(s.other);
            w.u16(s.shndx as u64);
            w.u64(s.value);
            w.u64(s.size);
        } else {
            w.u32(s.value);
            w.u32(s.size);
            w.u8(s.info);
            w.u8(s.other);
            w.u16(s.shndx as u64);
        }
    }
    let _ = ctx;
    w.v
}

fn a_symbol(ctx: &mut Ctx, secs: &[(u64, u64)], dynamic: bool, wide: bool) -> Sym {
    let name = if ctx.c.chance(1, 15) { Vec::new() } else { symbol_name(ctx) };
    let k = ctx.c.idx(secs.len());
    let (a, z) = secs[k];
    let value = match ctx.c.below(6) {
        0 => a,
        1 => a.wrapping_add(z),
        2 => a.wrapping_add(4 * ctx.c.below(4)),
        _ => a.wrapping_add(ctx.c.below(z + 8)),
    };
    let size = match ctx.c.below(5) {
        0 | 1 => 0,
        2 => 4,
        3 => ctx.c.below(z + 2),
        _ => ctx.c.below(40),
    };
    let ty = *ctx.c.pick(&[0u8, 1, 1, 2, 2, 2, 3, 4, 6, 10]);
    let bind = if dynamic { *ctx.c.pick(&[1u8, 1, 1, 2]) } else { *ctx.c.pick(&[0u8, 0, 1, 1, 2]) };
    let other = *ctx.c.pick(&[0u8, 0, 0, 1, 2, 3]);
    let shndx = match ctx.c.below(12) {
        0 => 0,
        1 => 0xfff1,
        2 => 0xfff2,
        _ => 1 + k as u32,
    };
    let mask = if wide { u64::MAX } else { u32::MAX as u64 };
    Sym { name, value: value & mask, size: size & mask, info: bind << 4 | ty, other, shndx }
}

pub fn elf(ctx: &mut Ctx) -> Vec<u8> {
    let (big, wide) = (ctx.c.chance(1, 2), ctx.c.chance(1, 2));
    let mut secs: Vec<Sec> = vec![Sec::new(b"", 0, Vec::new())];
    let n = 1 + ctx.c.idx(8);
    let mut base = *ctx.c.pick(&[0u64, 0x1000, 0x40_0000, 0xffff_f000, 0x7fff_0000]);
    if wide && ctx.c.chance(1, 6) {
        base = 0xffff_ffff_ffff_0000;
    }
    let mask = if wide { u64::MAX } else { u32::MAX as u64 };
    for _ in 0..n {
        let name: &[u8] = *ctx.c.pick(&[&b".text"[..], b".data", b".rodata", b".bss", b".debug_info", b".zdebug_info", b".zdebug_line", b".text", b".text.hot", b"", b"debug_info"]);
        let len = ctx.c.idx(60);
        let nobits = name == b".bss";
        let data = if nobits { Vec::new() } else { ctx.c.bytes(len) };
        let mut s = Sec::new(name, if nobits { 8 } else { 1 }, data);
        s.size = len as u64;
        let dbg = name.windows(5).any(|w| w == b"debug");
        s.flags = if dbg { 0 } else { *ctx.c.pick(&[2u64, 3, 6]) };
        s.addr = if dbg && ctx.c.chance(2, 3) { 0 } else { base & mask };
        s.align = 1;
        // overlapping, adjacent or apart
        base = match ctx.c.below(4) {
            0 => base,
            1 | 2 => base.wrapping_add(len as u64),
            _ => base.wrapping_add(len as u64 + ctx.c.below(0x100)),
        };
        if s.flags == 0 && name.starts_with(b".z") && !nobits {
            // a proper header of a compressed section is not needed: it is then plain data
        }
        secs.push(s);
    }
    let places: Vec<(u64, u64)> = secs[1..].iter().map(|s| (s.addr, s.size)).collect();
    let null = || Sym { name: Vec::new(), value: 0, size: 0, info: 0, other: 0, shndx: 0 };
    let add = |secs: &mut Vec<Sec>, s: Sec| -> u32 {
        secs.push(s);
        secs.len() as u32 - 1
    };
    // the static table
    let mut symtab = 0;
    if ctx.c.chance(4, 5) {
        let n = ctx.c.idx(30);
        let mut syms: Vec<Sym> = vec![null()];
        for _ in 0..n {
            let s = a_symbol(ctx, &places, false, wide);
            syms.push(s);
        }
        syms[1..].sort_by_key(|s| (s.info >> 4 != 0) as u8);
        let locals = syms.iter().take_while(|s| s.info >> 4 == 0).count();
        let mut st = Strs::new();
        let data = put_syms(ctx, &syms, &mut st, big, wide);
        let strs = add(&mut secs, Sec::new(b".strtab", 3, st.v));
        let mut s = Sec::new(b".symtab", 2, data);
        s.link = strs;
        s.info = locals as u32;
        s.entsize = if wide { 24 } else { 16 };
        symtab = add(&mut secs, s);
        // relocations against it
        for _ in 0..ctx.c.idx(4) {
            let target = 1 + ctx.c.idx(places.len());
            let rela = ctx.c.chance(1, 2);
            let mut w = W::new(big, wide);
            let cnt = ctx.c.idx(5);
            for k in 0..cnt {
                let off = if ctx.c.chance(1, 8) { 0 } else { 8 * k as u64 };
                w.w(off);
                let sym = ctx.c.below(syms.len() as u64);
                let ty = *ctx.c.pick(&[1u64, 1, 1, 2, 0]);
                w.w(if wide { sym << 32 | ty } else { sym << 8 | ty });
                if rela {
                    let a = ctx.c.below(16).wrapping_sub(4);
                    w.w(a & mask);
                }
            }
            let mut s = Sec::new(if rela { b".rela.x" } else { b".rel.x" }, if rela { 4 } else { 9 }, w.v);
            s.link = symtab;
            s.info = target as u32;
            s.entsize = match (wide, rela) {
                (true, true) => 24,
                (true, false) => 16,
                (false, true) => 12,
                (false, false) => 8,
            };
            add(&mut secs, s);
        }
    }
    let _ = symtab;
    // the dynamic table
    if ctx.c.chance(3, 4) {
        let nd = ctx.c.idx(25);
        let mut defs: Vec<Sym> = (0..nd).map(|_| a_symbol(ctx, &places, true, wide)).collect();
        defs.retain(|s| !s.name.is_empty());
        let nu = ctx.c.idx(5);
        let mut syms: Vec<Sym> = vec![null()];
        for _ in 0..nu {
            let mut s = a_symbol(ctx, &places, true, wide);
            s.shndx = 0;
            syms.push(s);
        }
        let base = syms.len();
        let buckets = 1 + ctx.c.idx(6) as u32;
        defs.sort_by_key(|s| gnu_hash(&s.name) % buckets);
        syms.extend(defs);
        let nsyms = syms.len();
        let mut st = Strs::new();
        let data = put_syms(ctx, &syms, &mut st, big, wide);
        // versions
        let with_versions = ctx.c.chance(1, 2);
        let vd_names: Vec<Vec<u8>> = (0..ctx.c.idx(3)).map(|k| format!("V{k}").into_bytes()).collect();
        let vn_names: Vec<(Vec<u8>, Vec<Vec<u8>>)> = (0..ctx.c.idx(3))
            .map(|k| (format!("lib{k}.so").into_bytes(), (0..1 + ctx.c.idx(2)).map(|j| format!("V{}", j + ctx.c.idx(2)).into_bytes()).collect()))
            .collect();
        let nver = 1 + vd_names.len() + vn_names.iter().map(|x| x.1.len()).sum::<usize>();
        let (mut versym, mut verdef, mut verneed) = (W::new(big, wide), W::new(big, wide), W::new(big, wide));
        if with_versions {
            for (k, _) in syms.iter().enumerate() {
                let v = match ctx.c.below(5) {
                    _ if k == 0 => 0,
                    0 => 0,
                    1 => 1,
                    _ => 1 + ctx.c.below(nver as u64),
                };
                let hidden = if v > 1 && ctx.c.chance(1, 3) { 0x8000 } else { 0 };
                versym.u16(v | hidden);
            }
            for (k, n) in vd_names.iter().enumerate() {
                verdef.u16(1);
                verdef.u16(0);
                verdef.u16(2 + k as u64);
                verdef.u16(1);
                verdef.u32(sysv_hash(n) as u64);
                verdef.u32(20);
                verdef.u32(if k + 1 == vd_names.len() { 0 } else { 28 });
                let s = st.add(n);
                verdef.u32(s);
                verdef.u32(0);
            }
            let mut ix = 2 + vd_names.len() as u64;
            for (k, (f, vs)) in vn_names.iter().enumerate() {
                verneed.u16(1);
                verneed.u16(vs.len() as u64);
                let s = st.add(f);
                verneed.u32(s);
                verneed.u32(16);
                verneed.u32(if k + 1 == vn_names.len() { 0 } else { 16 + 16 * vs.len() as u64 });
                for (j, v) in vs.iter().enumerate() {
                    verneed.u32(sysv_hash(v) as u64);
                    verneed.u16(0);
                    verneed.u16(ix);
                    ix += 1;
                    let s = st.add(v);
                    verneed.u32(s);
                    verneed.u32(if j + 1 == vs.len() { 0 } else { 16 });
                }
            }
        }
        let dynstr = add(&mut secs, Sec::new(b".dynstr", 3, st.v));
        let mut s = Sec::new(b".dynsym", 11, data);
        s.link = dynstr;
        s.info = 1;
        s.entsize = if wide { 24 } else { 16 };
        let dynsym = add(&mut secs, s);
        if with_versions {
            let mut s = Sec::new(b".gnu.version", 0x6fff_ffff, versym.v);
            s.link = dynsym;
            s.entsize = 2;
            add(&mut secs, s);
            if !vd_names.is_empty() {
                let mut s = Sec::new(b".gnu.version_d", 0x6fff_fffd, verdef.v);
                s.link = dynstr;
                s.info = vd_names.len() as u32;
                add(&mut secs, s);
            }
            if !vn_names.is_empty() {
                let mut s = Sec::new(b".gnu.version_r", 0x6fff_fffe, verneed.v);
                s.link = dynstr;
                s.info = vn_names.len() as u32;
                add(&mut secs, s);
            }
        }
        if ctx.c.chance(3, 4) {
            let nb = 1 + ctx.c.idx(5);
            let mut b = vec![0u32; nb];
            let mut ch = vec![0u32; nsyms];
            for (i, s) in syms.iter().enumerate().skip(1) {
                let k = sysv_hash(&s.name) as usize % nb;
                ch[i] = b[k];
                b[k] = i as u32;
            }
            let mut w = W::new(big, wide);
            w.u32(nb as u64);
            w.u32(nsyms as u64);
            for x in b.iter().chain(&ch) {
                w.u32(*x as u64);
            }
            let mut s = Sec::new(b".hash", 5, w.v);
            s.link = dynsym;
            s.entsize = 4;
            add(&mut secs, s);
        }
        if ctx.c.chance(3, 4) {
            let bits = if wide { 64 } else { 32 };
            let bloom = 1u32 << ctx.c.below(3);
            let far = ctx.c.chance(1, 4);
            let shift = ctx.c.below(if far { 32 } else { 8 }) as u32;
            let mut filter = vec![0u64; bloom as usize];
            let mut bk = vec![0u32; buckets as usize];
            let mut ch = Vec::new();
            for i in base..nsyms {
                let h = gnu_hash(&syms[i].name);
                filter[(h / bits & (bloom - 1)) as usize] |= 1 << (h % bits) | 1 << ((h >> shift) % bits);
                let k = (h % buckets) as usize;
                if bk[k] == 0 {
                    bk[k] = i as u32;
                }
                let last = i + 1 == nsyms || gnu_hash(&syms[i + 1].name) % buckets != h % buckets;
                ch.push(h & !1 | last as u32);
            }
            let mut w = W::new(big, wide);
            w.u32(buckets as u64);
            w.u32(base as u64);
            w.u32(bloom as u64);
            w.u32(shift as u64);
            for f in filter {
                w.w(f);
            }
            for x in bk.iter().chain(&ch) {
                w.u32(*x as u64);
            }
            let mut s = Sec::new(b".gnu.hash", 0x6fff_fff6, w.v);
            s.link = dynsym;
            add(&mut secs, s);
        }
    }
    // names last
    let mut names = Strs::new();
    let shstr = secs.len();
    secs.push(Sec::new(b".shstrtab", 3, Vec::new()));
    let offs: Vec<u64> = secs.iter().map(|s| names.add(&s.name)).collect();
    secs[shstr].size = names.v.len() as u64;
    secs[shstr].data = names.v;
    // segments
    let nseg = ctx.c.idx(4);
    let mut w = W::new(big, wide);
    let (eh, ph, sh) = if wide { (64u64, 56u64, 64u64) } else { (52, 32, 40) };
    let mut at = eh + ph * nseg as u64;
    for s in &mut secs[1..] {
        at = at.div_ceil(8) * 8;
        s.off = at;
        at += s.data.len() as u64;
    }
    let shoff = at.div_ceil(8) * 8;
    w.v.extend([0x7f, b'E', b'L', b'F', 1 + wide as u8, 1 + big as u8, 1, 0]);
    w.u64(0);
    w.u16(*ctx.c.pick(&[1u64, 2, 3]));
    let m = *ctx.c.pick(if wide { &[62u64, 183, 21, 22, 243] } else { &[3u64, 40, 8, 20, 243] });
    w.u16(m);
    w.u32(1);
    w.w(places[0].0);
    w.w(if nseg == 0 { 0 } else { eh });
    w.w(shoff);
    w.u32(0);
    for x in [eh, if nseg == 0 { 0 } else { ph }, nseg as u64, sh, secs.len() as u64, shstr as u64] {
        w.u16(x);
    }
    for _ in 0..nseg {
        let s = &secs[1 + ctx.c.idx(places.len())];
        let (off, fz, mz, a) = (s.off, s.data.len() as u64, s.size + ctx.c.below(16), s.addr);
        let ty = *ctx.c.pick(&[1u64, 1, 1, 4, 0x6474_e551]);
        w.u32(ty);
        if wide {
            w.u32(5);
        }
        w.w(off);
        w.w(a);
        w.w(a);
        w.w(fz);
        w.w(mz);
        if !wide {
            w.u32(5);
        }
        w.w(1);
    }
    for s in &secs[1..] {
        w.pad(8);
        assert_eq!(w.v.len() as u64, s.off);
        w.v.extend_from_slice(&s.data);
    }
    w.pad(8);
    for (s, n) in secs.iter().zip(&offs) {
        w.u32(*n);
        w.u32(s.ty as u64);
        w.w(s.flags);
        w.w(s.addr);
        w.w(s.off);
        w.w(s.size);
        w.u32(s.link as u64);
        w.u32(s.info as u64);
        w.w(s.align);
        w.w(s.entsize);
    }
    w.v
}

// ---- PE

pub fn pe(ctx: &mut Ctx, overlap: bool) -> Vec<u8> {
    let wide = ctx.c.chance(1, 2);
    let n = 1 + ctx.c.idx(5);
    let ndirs = *ctx.c.pick(&[16u64, 16, 1, 2, 0, 7]);
    let opt = if wide { 112 } else { 96 } + 8 * ndirs;
    let headers = 64 + 4 + 20 + opt + 40 * n as u64;
    let mut va = 0x1000u32;
    let mut raw = headers.div_ceil(16) * 16;
    struct S {
        name: Vec<u8>,
        va: u32,
        vs: u32,
        off: u32,
        data: Vec<u8>,
    }
    let mut secs = Vec::new();
    let exporter = ctx.c.idx(n);
    let mut dir = (0u32, 0u32);
    for k in 0..n {
        if ctx.c.chance(1, 6) {
            va = va.wrapping_add(0xfff_0000 & (ctx.c.u64() as u32));
        }
        let mut data;
        if k == exporter && ndirs > 0 && ctx.c.chance(3, 4) {
            let lead = 4 * ctx.c.idx(3);
            let (d, size) = export_dir(ctx, va + lead as u32);
            data = vec![0x5au8; lead];
            data.extend(d);
            dir = (va + lead as u32, size);
            let tail = ctx.c.idx(20);
            data.extend(ctx.c.bytes(tail));
        } else {
            let len = ctx.c.idx(80);
            data = ctx.c.bytes(len);
        }
        let has_dir = k == exporter && dir.0 != 0;
        let len = data.len() as u32;
        let vs = match ctx.c.below(4) {
            _ if has_dir => len + ctx.c.below(100) as u32,
            0 => len,
            1 => len / 2,
            2 => len + ctx.c.below(200) as u32,
            _ => 0x1000,
        };
        let name: &[u8] = *ctx.c.pick(&[&b".text"[..], b".rdata", b".data", b".edata", b"LONGNAME", b".text", b""]);
        secs.push(S { name: name.to_vec(), va, vs, off: if data.is_empty() { 0 } else { raw as u32 }, data });
        raw = (raw + len as u64).div_ceil(16) * 16;
        // the next section may start before this one ends
        va = match ctx.c.below(8) {
            0 if overlap => va.wrapping_add(vs / 2),
            _ => va.wrapping_add(vs.max(if overlap { 1 } else { len.max(1) }).div_ceil(0x1000) * 0x1000),
        };
    }
    let mut w = W::new(false, wide);
    w.v.extend(b"MZ");
    w.v.resize(60, 0);
    w.u32(64);
    w.v.extend(b"PE\0\0");
    w.u16(if wide { 0x8664 } else { 0x14c });
    w.u16(n as u64);
    w.u32(0);
    w.u32(0);
    w.u32(0);
    w.u16(opt);
    w.u16(0x2022);
    w.u16(if wide { 0x20b } else { 0x10b });
    w.u8(14);
    w.u8(0);
    for x in [0x200u64, 0x200, 0, secs[0].va as u64, secs[0].va as u64] {
        w.u32(x);
    }
    if !wide {
        w.u32(0);
    }
    w.w(if wide { 0x1_4000_0000 } else { 0x1000_0000 });
    w.u32(0x1000);
    w.u32(16);
    for x in [6u64, 0, 0, 0, 6, 0] {
        w.u16(x);
    }
    w.u32(0);
    w.u32(0x10_0000);
    w.u32(headers);
    w.u32(0);
    w.u16(3);
    w.u16(0x8160);
    for x in [0x10_0000u64, 0x1000, 0x10_0000, 0x1000] {
        w.w(x);
    }
    w.u32(0);
    w.u32(ndirs);
    for k in 0..ndirs {
        if k == 0 {
            w.u32(dir.0 as u64);
            w.u32(dir.1 as u64);
        } else if k > 5 && ctx.c.chance(1, 8) {
            w.u32(secs[0].va as u64);
            w.u32(4);
        } else {
            w.u64(0);
        }
    }
    for s in &secs {
        let mut nm = s.name.clone();
        nm.resize(8, 0);
        w.v.extend(nm);
        w.u32(s.vs as u64);
        w.u32(s.va as u64);
        w.u32(s.data.len() as u64);
        w.u32(s.off as u64);
        w.u64(0);
        w.u32(0);
        w.u32(0x4000_0040);
    }
    for s in &secs {
        w.pad(16);
        w.v.extend_from_slice(&s.data);
    }
    w.v
}

fn export_dir(ctx: &mut Ctx, va: u32) -> (Vec<u8>, u32) {
    let base = *ctx.c.pick(&[0u32, 1, 1, 1, 5, 100, 65500, 65530]);
    let nf = ctx.c.idx(if base > 65500 { 6 } else { 12 });
    let nn = ctx.c.idx(nf + 3).min(if nf == 0 { 0 } else { usize::MAX });
    let mut strs: Vec<u8> = Vec::new();
    let tables = 40 + 4 * nf + 4 * nn + 2 * nn;
    let mut add = |s: &[u8]| -> u32 {
        let at = va + (tables + strs.len()) as u32;
        strs.extend_from_slice(s);
        strs.push(0);
        at
    };
    let dll = add(b"some.dll");
    let mut addrs = Vec::new();
    for k in 0..nf {
        addrs.push(match ctx.c.below(6) {
            0 => 0,
            1 => add(format!("other.Func{}", ctx.c.below(10)).as_bytes()),
            2 => add(format!("dotted.name.#{}", ctx.c.below(70000).min(65535)).as_bytes()),
            3 => 0x10_0000 + k as u32,
            _ => 0x20_0000 + ctx.c.below(0x1000) as u32,
        });
    }
    let mut names: Vec<(Vec<u8>, u16)> = Vec::new();
    for _ in 0..nn {
        let n = symbol_name(ctx);
        names.push((n, ctx.c.below(nf as u64) as u16));
    }
    names.sort();
    let ptrs: Vec<u32> = names.iter().map(|n| add(&n.0)).collect();
    let mut w = W::new(false, false);
    w.u32(0);
    w.u32(0);
    w.u32(0);
    w.u32(dll as u64);
    w.u32(base as u64);
    w.u32(nf as u64);
    w.u32(nn as u64);
    let f = va + 40;
    w.u32(if nf == 0 { 0 } else { f as u64 });
    w.u32(if nn == 0 { 0 } else { (f + 4 * nf as u32) as u64 });
    w.u32(if nn == 0 { 0 } else { (f + 4 * nf as u32 + 4 * nn as u32) as u64 });
    for a in addrs {
        w.u32(a as u64);
    }
    for p in ptrs {
        w.u32(p as u64);
    }
    for n in &names {
        w.u16(n.1 as u64);
    }
    w.v.extend(strs);
    let n = w.v.len() as u32;
    (w.v, n)
}

// ---- Mach-O

pub struct MachoGen {
    pub data: Vec<u8>,
    /// address, size, name, file, archive member
    pub functions: Vec<(u64, u64, Vec<u8>, Vec<u8>, Option<Vec<u8>>)>,
    /// name, target
    pub exports: Vec<(Vec<u8>, String)>,
}

fn uleb(mut x: u64) -> Vec<u8> {
    let mut v = Vec::new();
    loop {
        let b = (x & 0x7f) as u8;
        x >>= 7;
        if x == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80);
    }
}

#[derive(Default)]
struct Node {
    term: Option<Vec<u8>>,
    kids: Vec<(Vec<u8>, Node)>,
}

fn insert(ctx: &mut Ctx, n: &mut Node, key: &[u8], term: Vec<u8>) {
    if key.is_empty() {
        n.term = Some(term);
        return;
    }
    for (e, k) in &mut n.kids {
        let common = e.iter().zip(key).take_while(|(a, b)| a == b).count();
        if common == 0 {
            continue;
        }
        if common < e.len() {
            let old = std::mem::take(k);
            let rest = e.split_off(common);
            k.kids.push((rest, old));
        }
        return insert(ctx, k, &key[common..], term);
    }
    // a long edge may be several nodes
    let cut = if key.len() > 1 && ctx.c.chance(1, 4) { 1 + ctx.c.idx(key.len() - 1) } else { key.len() };
    let mut child = Node::default();
    insert(ctx, &mut child, &key[cut..], term);
    n.kids.push((key[..cut].to_vec(), child));
}

fn node_bytes(n: &Node, offs: &[u64]) -> Vec<u8> {
    let mut v = Vec::new();
    match &n.term {
        Some(t) => {
            v.extend(uleb(t.len() as u64));
            v.extend(t);
        }
        None => v.push(0),
    }
    v.push(n.kids.len() as u8);
    for ((e, _), o) in n.kids.iter().zip(offs) {
        v.extend(e);
        v.push(0);
        v.extend(uleb(*o));
    }
    v
}

fn trie(root: &Node, shuffle: u64) -> Vec<u8> {
    // nodes in some order, the root first
    let mut nodes: Vec<&Node> = vec![root];
    let mut kids: Vec<Vec<usize>> = vec![Vec::new()];
    let mut k = 0;
    while k < nodes.len() {
        for (_, c) in &nodes[k].kids {
            nodes.push(c);
            kids.push(Vec::new());
            let id = nodes.len() - 1;
            kids[k].push(id);
        }
        k += 1;
    }
    let mut order: Vec<usize> = (1..nodes.len()).collect();
    order.sort_by_key(|i| crate::choices::mix(shuffle, *i as u64));
    if shuffle == 0 {
        order.sort();
    }
    order.insert(0, 0);
    let mut offs = vec![0u64; nodes.len()];
    loop {
        let mut at = 0;
        let mut new = offs.clone();
        for &i in &order {
            new[i] = at;
            let ko: Vec<u64> = kids[i].iter().map(|k| offs[*k]).collect();
            at += node_bytes(nodes[i], &ko).len() as u64;
        }
        if new == offs {
            break;
        }
        offs = new;
    }
    let mut v = Vec::new();
    for &i in &order {
        let ko: Vec<u64> = kids[i].iter().map(|k| offs[*k]).collect();
        v.extend(node_bytes(nodes[i], &ko));
    }
    v
}

pub fn macho(ctx: &mut Ctx) -> MachoGen {
    let big = ctx.c.chance(1, 4);
    const TEXT: u64 = 0x1_0000_0000;
    let mut strs = Strs { v: vec![b' ', 0] };
    let mut w = W::new(big, true);
    let mut nsyms = 0u64;
    let mut functions = Vec::new();
    let mut file: Option<(Vec<u8>, Option<Vec<u8>>)> = None;
    let mut open: Option<(Vec<u8>, u64)> = None;
    let n = ctx.c.idx(40);
    for _ in 0..n {
        let addr = TEXT + 0x1000 + 8 * ctx.c.below(64);
        // name, type, section, desc, value
        let (name, ty, sect, value): (Vec<u8>, u8, u8, u64) = match ctx.c.below(12) {
            0 => (b"/src/".to_vec(), 0x64, 0, 0),
            1 => (Vec::new(), 0x64, 1, 0),
            2 | 3 => {
                let p = *ctx.c.pick(&[&b"/tmp/a.o"[..], b"/tmp/lib.a(b.o)", b"/x/l(1).a(c.o)", b"odd)", b"(o)", b"", b"/tmp/a(b"]);
                (p.to_vec(), 0x66, 0, 0)
            }
            4 | 5 => (format!("_f{}", ctx.c.below(30)).into_bytes(), 0x24, 1, addr),
            6 | 7 | 8 => (Vec::new(), 0x24, 0, ctx.c.below(64)),
            9 => (format!("_s{}", ctx.c.below(9)).into_bytes(), 0x26, 2, addr),
            10 => (format!("_g{}", ctx.c.below(9)).into_bytes(), *ctx.c.pick(&[0x20u8, 0x2e, 0x4e, 0x84, 0x3c]), 1, addr),
            _ => (symbol_name(ctx), *ctx.c.pick(&[0x0fu8, 0x0e, 0x01]), 1, addr),
        };
        let value = if ty == 0x24 && name.is_empty() && ctx.c.chance(1, 10) { 0 } else { value };
        match ty {
            0x64 => file = None,
            0x66 => {
                file = None;
                if !name.is_empty() {
                    let arch = match name.last() {
                        Some(b')') => name[..name.len() - 1].iter().position(|c| *c == b'(').map(|i| (name[..i].to_vec(), Some(name[i + 1..name.len() - 1].to_vec()))),
                        _ => None,
                    };
                    file = Some(arch.unwrap_or((name.clone(), None)));
                }
            }
            0x24 if !name.is_empty() => open = Some((name.clone(), value)),
            0x24 => {
                if let (Some((n, a)), Some((p, m))) = (open.take(), &file) {
                    functions.push((a, value, n, p.clone(), m.clone()));
                }
            }
            0x26 => {
                if let Some((p, m)) = &file {
                    functions.push((value, 0, name.clone(), p.clone(), m.clone()));
                }
            }
            _ => {}
        }
        let at = if name.is_empty() { 1 } else { strs.add(&name) };
        w.u32(at);
        w.u8(ty);
        w.u8(if ty == 1 { 0 } else { sect });
        w.u16(0);
        w.u64(if ty == 1 { 0 } else { value });
        nsyms += 1;
    }
    let syms = w.v;
    // exports
    let mut exports = Vec::new();
    let mut root = Node::default();
    let mut taken = std::collections::BTreeSet::new();
    let with_trie = ctx.c.chance(3, 4);
    if with_trie {
        for _ in 0..ctx.c.idx(25) {
            let mut name = symbol_name(ctx);
            if ctx.c.chance(1, 2) {
                name.insert(0, b'_');
            }
            if !taken.insert(name.clone()) {
                continue;
            }
            let (term, target) = match ctx.c.below(6) {
                0 => {
                    let imp: &[u8] = if ctx.c.chance(1, 2) { b"" } else { b"_other" };
                    let shown = if imp.is_empty() { name.clone() } else { imp.to_vec() };
                    ([uleb(8), uleb(1), imp.to_vec(), vec![0]].concat(), Some((1, shown)))
                }
                _ => {
                    let a = 0x1000 + ctx.c.size(1 << 20);
                    ([uleb(0), uleb(a)].concat(), None.map(|x: (u32, Vec<u8>)| x).or(Some((0, (TEXT + a).to_le_bytes().to_vec()))))
                }
            };
            let text = match target {
                Some((1, shown)) => format!(
                    "{:?}",
                    object::read::ExportTarget::Reexport { library: b"/usr/lib/libx.dylib", name: object::read::NameOrOrdinal::Name(&shown[..]) }
                ),
                Some((_, b)) => format!("{:?}", object::read::ExportTarget::Address { address: u64::from_le_bytes(b.try_into().unwrap()) }),
                None => unreachable!(),
            };
            insert(ctx, &mut root, &name, term);
            exports.push((name, text));
        }
    }
    let shuffle = if ctx.c.chance(1, 2) { 0 } else { ctx.c.u64() };
    let trie = if with_trie { trie(&root, shuffle) } else { Vec::new() };
    // commands
    let mut cmds: Vec<Vec<u8>> = Vec::new();
    let fixed = |s: &[u8]| {
        let mut v = s.to_vec();
        v.resize(16, 0);
        v
    };
    let nsec = 1 + ctx.c.idx(3);
    let size = 72 + 80 * nsec as u64 + 72 + 24 + 16 + 56 + 32;
    let text_off = size.div_ceil(16) * 16;
    let text_len = 0x40u64 * nsec as u64;
    let sym_off = text_off + text_len;
    let str_off = sym_off + syms.len() as u64;
    let trie_off = (str_off + strs.v.len() as u64).div_ceil(8) * 8;
    let mut c = W::new(big, true);
    c.u32(0x19);
    c.u32(72 + 80 * nsec as u64);
    c.v.extend(fixed(b"__TEXT"));
    c.u64(TEXT);
    c.u64(0x4000);
    c.u64(0);
    c.u64(text_off + text_len);
    for x in [5u64, 5, nsec as u64, 0] {
        c.u32(x);
    }
    for k in 0..nsec {
        let name: &[u8] = *ctx.c.pick(&[&b"__text"[..], b"__debug_info", b"__zdebug_info", b"__debug_str_offs", b"__zdebug_str_off", b"__const", b"__text"]);
        c.v.extend(fixed(name));
        c.v.extend(fixed(b"__TEXT"));
        c.u64(TEXT + 0x1000 + 0x40 * k as u64);
        c.u64(0x40);
        c.u32(text_off + 0x40 * k as u64);
        for x in [2u64, 0, 0, 0x8000_0400, 0, 0, 0] {
            c.u32(x);
        }
    }
    cmds.push(c.v);
    let mut c = W::new(big, true);
    c.u32(0x19);
    c.u32(72);
    c.v.extend(fixed(b"__LINKEDIT"));
    c.u64(TEXT + 0x4000);
    c.u64(0x4000);
    c.u64(sym_off);
    c.u64(trie_off + trie.len() as u64 - sym_off);
    for x in [1u64, 1, 0, 0] {
        c.u32(x);
    }
    cmds.push(c.v);
    let mut c = W::new(big, true);
    for x in [2u64, 24, sym_off, nsyms, str_off, strs.v.len() as u64] {
        c.u32(x);
    }
    cmds.push(c.v);
    let mut c = W::new(big, true);
    for x in [0x8000_0033u64, 16, trie_off, trie.len() as u64] {
        c.u32(x);
    }
    cmds.push(c.v);
    let mut c = W::new(big, true);
    for x in [0xcu64, 48, 24, 0, 0, 0] {
        c.u32(x);
    }
    c.v.extend(b"/usr/lib/libx.dylib");
    c.v.resize(48, 0);
    cmds.push(c.v);
    let total: usize = cmds.iter().map(|c| c.len()).sum();
    let mut f = W::new(big, true);
    for x in [0xfeed_facf_u64, if big { 0x0100_0012 } else { 0x0100_0007 }, 3, 6, cmds.len() as u64, total as u64, 0x85, 0] {
        f.u32(x);
    }
    for c in cmds {
        f.v.extend(c);
    }
    f.v.resize(text_off as usize, 0);
    f.v.resize((text_off + text_len) as usize, 0x90);
    f.v.extend(syms);
    f.v.extend(&strs.v);
    f.v.resize(trie_off as usize, 0);
    f.v.extend(trie);
    MachoGen { data: f.v, functions, exports }
}
