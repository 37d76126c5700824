//! Very many sections and relocations, around the limits of the fields that count them.
use crate::ctx::{Ctx, R, violation};
use crate::describe::Target;
use crate::ensure;
use crate::relocs;
use object::read::{File, Object as _, ObjectSection as _, ObjectSymbol as _, ReadRef, RelocationTarget};
use object::write::{Relocation, Symbol, SymbolSection};
use object::{BinaryFormat as B, RelocationEncoding as RE, RelocationFlags, RelocationKind as RK, SectionKind, SymbolFlags, SymbolKind, SymbolScope};

struct Plan {
    t: Target,
    n: usize,
    /// sections with a symbol
    syms: Vec<usize>,
    relocs: usize,
    addend: bool,
}

fn around(ctx: &mut Ctx, at: &[usize]) -> usize {
    (*ctx.c.pick(at) + ctx.c.below(4) as usize).saturating_sub(2).max(1)
}

fn plan(ctx: &mut Ctx, many_relocs: bool) -> Plan {
    let mut t = Target::pick(&mut ctx.c);
    if many_relocs && ctx.c.chance(1, 2) {
        // the formats that count relocations in 16 bits
        let few: Vec<Target> = crate::describe::targets().into_iter().filter(|t| matches!(t.fmt, B::Coff | B::Xcoff)).collect();
        t = few[ctx.c.idx(few.len())];
    }
    let n = match t.fmt {
        _ if many_relocs => 1 + ctx.c.below(4) as usize,
        B::MachO => around(ctx, &[255, 256, 300]),
        B::Xcoff => around(ctx, &[32767, 32768]),
        B::Coff => around(ctx, &[32768, 65279, 65280, 65536, 66000]),
        // the tables themselves are sections too
        B::Elf if ctx.c.chance(1, 2) => 65270 + ctx.c.below(14) as usize,
        _ => around(ctx, &[255, 32768, 65280, 65536, 66000]),
    };
    let mut syms = vec![0, n - 1, n / 2];
    for _ in 0..ctx.c.below(6) {
        syms.push(ctx.c.below(n as u64) as usize);
        syms.push(n - 1 - ctx.c.below(n.min(8) as u64) as usize);
    }
    syms.sort();
    syms.dedup();
    let e = relocs::entries(&t).iter().find(|e| e.kind == RK::Absolute && e.enc == RE::Generic && e.size == 32);
    let relocs = match e {
        None => 0,
        Some(_) if many_relocs && ctx.c.chance(1, 2) => 65534 + ctx.c.below(3) as usize,
        Some(_) if many_relocs => around(ctx, &[255, 32768, 65535, 65536, 70000, 131072]),
        Some(_) => ctx.c.below(4) as usize,
    };
    Plan { t, n, syms, relocs, addend: e.is_some_and(|e| e.addend) && relocs::explicit_addends(&t) }
}

fn name(i: usize) -> Vec<u8> {
    // short enough for every format
    format!("s{i}").into_bytes()
}

fn emit(ctx: &mut Ctx, p: &Plan) -> R<Option<Vec<u8>>> {
    let mut o = p.t.new_object();
    let mut ids = Vec::new();
    for i in 0..p.n {
        let id = o.add_section(b"__DATA".to_vec(), name(i), SectionKind::Data);
        if i > 0 {
            o.append_section_data(id, &(i as u32).to_le_bytes(), 4);
        }
        ids.push(id);
    }
    o.append_section_data(ids[0], &vec![0; 4 * p.relocs.max(1)], 4);
    let mut y = Vec::new();
    for &i in &p.syms {
        y.push(o.add_symbol(Symbol {
            name: format!("y{i}").into_bytes(), value: 0, size: 4, kind: SymbolKind::Data, scope: SymbolScope::Linkage, weak: false,
            section: SymbolSection::Section(ids[i]), flags: SymbolFlags::None,
        }));
    }
    for i in 0..p.relocs {
        let addend = if p.addend { i as i64 } else { 0 };
        let flags = RelocationFlags::Generic { kind: RK::Absolute, encoding: RE::Generic, size: 32 };
        if let Err(e) = o.add_relocation(ids[0], Relocation { offset: 4 * i as u64, symbol: y[i % y.len()], addend, flags }) {
            return violation("valid-description-refused", format!("{}: relocation {i}: {e}", p.t.name()));
        }
    }
    let bad = match p.t.fmt {
        B::MachO => p.n > 255,
        B::Xcoff => p.n > 32767 || !p.t.is_64() && p.relocs >= 65535,
        B::Coff => p.n > 0xfeff,
        _ => false,
    };
    ctx.ev(|| format!("{} with {} sections, {} relocations, symbols in {:?}", p.t.name(), p.n, p.relocs, p.syms));
    match (o.write(), bad) {
        (Ok(b), false) => {
            ctx.probe("bulk_emitted");
            ctx.fold_bytes(&b);
            Ok(Some(b))
        }
        (Err(_), true) => {
            ctx.probe("bulk_refused");
            Ok(None)
        }
        (Ok(_), true) => violation("inexpressible-accepted", format!("{}: {} sections, {} relocations", p.t.name(), p.n, p.relocs)),
        (Err(e), false) => violation("valid-description-refused", format!("{}: {} sections, {} relocations: {e}", p.t.name(), p.n, p.relocs)),
    }
}

fn check<'a, X: ReadRef<'a>>(p: &Plan, f: &File<'a, X>) -> R {
    let tn = p.t.name();
    let mut index = Vec::new();
    for s in f.sections() {
        let nm = s.name_bytes().unwrap_or(b"?");
        if nm.first() != Some(&b's') {
            continue;
        }
        let i = index.len();
        ensure!(nm == name(i), "section", "{tn}: section {i} of {} is `{}`", p.n, String::from_utf8_lossy(nm));
        let d = s.data();
        let ok = match &d {
            Ok(d) if i == 0 => d.len() == 4 * p.relocs.max(1),
            Ok(d) => *d == (i as u32).to_le_bytes(),
            _ => false,
        };
        ensure!(ok, "section-data", "{tn}: section {i} of {} has data {d:?}", p.n);
        let again = f.section_by_index(s.index()).and_then(|s| s.name_bytes().map(|n| n.to_vec()));
        ensure!(again.as_deref() == Ok(nm), "section", "{tn}: section {i} by index is {again:?}");
        index.push(s.index());
    }
    ensure!(index.len() == p.n, "section", "{tn}: {} sections of {}", index.len(), p.n);
    let pre: &[u8] = if p.t.global_prefix() { b"_" } else { b"" };
    let mut of = std::collections::HashMap::new();
    for s in f.symbols() {
        let nm = s.name_bytes().unwrap_or(b"?");
        for (k, i) in p.syms.iter().enumerate() {
            let want = [pre, format!("y{i}").as_bytes()].concat();
            if nm == want && s.is_definition() {
                ensure!(s.section_index() == Some(index[*i]), "symbol-section", "{tn}: symbol of section {i} is in {:?}, not {:?}", s.section_index(), index[*i]);
                ensure!(of.insert(s.index(), k).is_none(), "symbol", "{tn}: symbol {i} twice");
            }
        }
    }
    ensure!(of.len() == p.syms.len(), "symbol", "{tn}: {} symbols of {}", of.len(), p.syms.len());
    let s0 = f.section_by_index(index[0]).unwrap();
    // Mach-O lists relocations in reverse order
    let mut n = 0;
    let mut seen = vec![false; p.relocs];
    for (off, r) in s0.relocations() {
        let i = off as usize / 4;
        let fresh = off % 4 == 0 && i < p.relocs && !std::mem::replace(&mut seen[i], true);
        ensure!(fresh, "relocation", "{tn}: relocation at {off:#x} of {}", p.relocs);
        let k = match r.target() {
            RelocationTarget::Symbol(y) => of.get(&y).copied(),
            _ => None,
        };
        ensure!(k == Some(i % p.syms.len()), "relocation-target", "{tn}: relocation {i} of {} against {:?}", p.relocs, r.target());
        ensure!(!p.addend || r.addend() == i as i64, "relocation-addend", "{tn}: relocation {i} of {} has addend {}", p.relocs, r.addend());
        n += 1;
    }
    ensure!(n == p.relocs, "relocation", "{tn}: {n} relocations of {}", p.relocs);
    Ok(())
}

fn bulk(ctx: &mut Ctx, many_relocs: bool) -> R {
    let p = plan(ctx, many_relocs);
    let Some(b) = emit(ctx, &p)? else { return Ok(()) };
    ctx.sig(crate::choices::fnv(format!("{:?}{}{}", p.t, p.n, p.relocs).as_bytes()));
    if b.len() < 200_000 {
        return crate::sc_write::read_back(ctx, &b, |f| check(&p, f));
    }
    match File::parse(&b[..]) {
        Ok(f) => check(&p, &f),
        Err(e) => violation("unreadable", format!("emitted file does not parse: {e}")),
    }
}

pub fn sections(ctx: &mut Ctx) -> R {
    bulk(ctx, false)
}

pub fn relocations(ctx: &mut Ctx) -> R {
    bulk(ctx, true)
}

/// More symbols than 16 bits can count, some of them used by relocations.
pub fn symbols(ctx: &mut Ctx) -> R {
    let t = Target::pick(&mut ctx.c);
    let tn = t.name();
    let n = around(ctx, &[32768, 65535, 65536, 70000, 131072]);
    let e = relocs::entries(&t).iter().find(|e| e.kind == RK::Absolute && e.enc == RE::Generic && e.size == 32);
    let uses: Vec<usize> = match e {
        None => Vec::new(),
        Some(_) => (0..1 + ctx.c.below(12)).map(|_| if ctx.c.chance(1, 2) { n - 1 - ctx.c.idx(8) } else { ctx.c.idx(n) }).collect(),
    };
    // definitions, references and local symbols are kept in separate runs by some formats
    let (undef, local) = (2 + ctx.c.idx(9), 2 + ctx.c.idx(9));
    let undefined = |i: usize| i % undef == 0;
    let mut o = t.new_object();
    let s = o.add_section(b"__DATA".to_vec(), b"s0".to_vec(), SectionKind::Data);
    o.append_section_data(s, &[0; 64], 8);
    let mut ids = Vec::new();
    for i in 0..n {
        let scope = if undefined(i) || i % local != 0 { SymbolScope::Linkage } else { SymbolScope::Compilation };
        let section = if undefined(i) { SymbolSection::Undefined } else { SymbolSection::Section(s) };
        let value = if undefined(i) { 0 } else { i as u64 % 61 };
        ids.push(o.add_symbol(Symbol { name: name(i), value, size: 0, kind: SymbolKind::Data, scope, weak: false, section, flags: SymbolFlags::None }));
    }
    for (k, &i) in uses.iter().enumerate() {
        let flags = RelocationFlags::Generic { kind: RK::Absolute, encoding: RE::Generic, size: 32 };
        if let Err(e) = o.add_relocation(s, Relocation { offset: 4 * k as u64, symbol: ids[i], addend: 0, flags }) {
            return violation("valid-description-refused", format!("{tn}: relocation against symbol {i} of {n}: {e}"));
        }
    }
    ctx.ev(|| format!("{tn} with {n} symbols, uses {uses:?}"));
    ctx.sig(crate::choices::fnv(format!("{tn}{n}{undef}{local}{uses:?}").as_bytes()));
    let b = match o.write() {
        Ok(b) => b,
        Err(e) => return violation("valid-description-refused", format!("{tn}: {n} symbols: {e}")),
    };
    ctx.probe("bulk_emitted");
    let f = match File::parse(&b[..]) {
        Ok(f) => f,
        Err(e) => return violation("unreadable", format!("{tn}: {n} symbols: emitted file does not parse: {e}")),
    };
    let pre: &[u8] = if t.global_prefix() { b"_s" } else { b"s" };
    let mut of = std::collections::HashMap::new();
    let mut seen = vec![false; n];
    for y in f.symbols() {
        let nm = y.name_bytes().unwrap_or(b"?");
        let Some(i) = nm.strip_prefix(pre).and_then(|d| std::str::from_utf8(d).ok()?.parse::<usize>().ok()) else { continue };
        if i == 0 && y.kind() == SymbolKind::Section {
            continue;
        }
        ensure!(i < n && !std::mem::replace(&mut seen[i], true), "symbol", "{tn}: symbol {i} of {n} twice");
        ensure!(y.is_undefined() == undefined(i), "symbol-section", "{tn}: symbol {i} of {n} is in {:?}", y.section());
        ensure!(undefined(i) || y.address() == i as u64 % 61 + f.section_by_name("s0").map_or(0, |s| s.address()), "symbol-value", "{tn}: symbol {i} of {n} has value {:#x}", y.address());
        of.insert(y.index(), i);
    }
    let missing = seen.iter().position(|s| !s);
    ensure!(missing.is_none(), "symbol", "{tn}: symbol {missing:?} of {n} is missing");
    let Some(s) = f.section_by_name("s0") else { return violation("section", format!("{tn}: the section is missing")) };
    let mut got = vec![None; uses.len()];
    for (off, r) in s.relocations() {
        if let (Some(g), RelocationTarget::Symbol(y)) = (got.get_mut(off as usize / 4), r.target()) {
            *g = of.get(&y).copied();
        }
    }
    for (k, i) in uses.iter().enumerate() {
        ensure!(got[k] == Some(*i), "relocation-target", "{tn}: a relocation against symbol {i} of {n} is against {:?}", got[k]);
    }
    Ok(())
}

/// An object file with more symbols than 16 bits can count.
pub fn crowded(ctx: &mut Ctx, fmt: B) -> Option<Vec<u8>> {
    let t: Vec<Target> = crate::describe::targets().into_iter().filter(|t| t.fmt == fmt).collect();
    let t = t[ctx.c.idx(t.len())];
    let n = around(ctx, &[65533, 65535, 65536, 70000]);
    let mut o = t.new_object();
    let s = o.add_section(b"__DATA".to_vec(), b"s0".to_vec(), SectionKind::Data);
    o.append_section_data(s, &[0; 64], 8);
    let undef = 2 + ctx.c.idx(9);
    let local = ctx.c.chance(1, 2);
    for i in 0..n {
        let section = if i % undef == 0 { SymbolSection::Undefined } else { SymbolSection::Section(s) };
        let scope = if local && i % 2 == 0 && i % undef != 0 { SymbolScope::Compilation } else { SymbolScope::Linkage };
        o.add_symbol(Symbol { name: name(i), value: 0, size: 0, kind: SymbolKind::Data, scope, weak: false, section, flags: SymbolFlags::None });
    }
    ctx.ev(|| format!("{} with {n} symbols", t.name()));
    o.write().ok()
}

/// Section and symbol names far into a string table of more than ten million bytes.
pub fn far_names(ctx: &mut Ctx) -> R {
    use object::{Architecture as A, Endianness};
    let coff = ctx.c.chance(7, 8);
    let arch = *ctx.c.pick(&[A::X86_64, A::I386, A::Aarch64]);
    let mut o = object::write::Object::new(if coff { B::Coff } else { B::Elf }, arch, Endianness::Little);
    // The longest strings come first in the table: it is ordered by last bytes, descending.
    let total = match ctx.c.below(4) {
        0 | 1 => 9_999_996 - ctx.c.below(300),
        2 => 10_000_000 + ctx.c.below(7_000_000),
        _ => ctx.c.below(10_000_000),
    } as usize;
    let n = 2 + ctx.c.below(10) as usize;
    let mut want_sec = Vec::new();
    let mut want_sym = Vec::new();
    let mut left = total;
    for i in 0..n {
        let len = if i + 1 == n { left } else { left / (n - i) };
        left -= len;
        let mut s = vec![b'a' + i as u8; len.saturating_sub(1).max(2)];
        *s.last_mut().unwrap() = b'~';
        let at = s.len() - 2;
        s[at] = b'A' + i as u8;
        want_sym.push(s);
    }
    let secs = if ctx.c.chance(1, 2) { 1 + ctx.c.below(12) } else { 64 + ctx.c.below(64) };
    for i in 0..secs {
        let mut s = format!(".section{i}_").into_bytes();
        for _ in 0..ctx.c.below(24) {
            s.push(b'0' + ctx.c.below(10) as u8);
        }
        s.push(b'a' + ctx.c.below(26) as u8);
        want_sec.push(s);
    }
    let mut ids = Vec::new();
    for s in &want_sec {
        ids.push(o.add_section(Vec::new(), s.clone(), SectionKind::Data));
    }
    for (i, s) in want_sym.iter().enumerate() {
        o.add_symbol(Symbol {
            name: s.clone(), value: i as u64, size: 0, kind: SymbolKind::Data, scope: SymbolScope::Linkage, weak: false,
            section: SymbolSection::Section(ids[i % ids.len()]), flags: SymbolFlags::None,
        });
    }
    ctx.ev(|| format!("{coff} {arch:?}: {} sections, {n} symbols with names of {total} bytes", ids.len()));
    let b = match o.write() {
        Ok(b) => b,
        Err(e) => return violation("valid-description-refused", format!("{arch:?}, {total} bytes of names: {e}")),
    };
    ctx.probe("far_names_emitted");
    ctx.sig(total as u64 ^ (ids.len() as u64) << 40 ^ (n as u64) << 48);
    let f = match File::parse(&b[..]) {
        Ok(f) => f,
        Err(e) => return violation("unreadable", format!("emitted file does not parse: {e}")),
    };
    let sec: Vec<_> = f.sections().filter_map(|s| s.name_bytes().ok().map(|n| (n.to_vec(), s.index()))).filter(|s| s.0.starts_with(b".section")).collect();
    ensure!(sec.iter().map(|s| &s.0).eq(&want_sec), "section", "{arch:?}, {total} bytes of names: sections {:?}", sec.iter().map(|s| String::from_utf8_lossy(&s.0)).collect::<Vec<_>>());
    let pre: &[u8] = if coff && arch == A::I386 { b"_" } else { b"" };
    for (i, s) in want_sym.iter().enumerate() {
        let s = [pre, s].concat();
        let got: Vec<_> = f.symbols().filter(|y| y.name_bytes().is_ok_and(|n| n == s)).map(|y| (y.address() , y.section_index())).collect();
        ensure!(got.len() == 1 && got[0].1 == Some(sec[i % sec.len()].1), "symbol", "{arch:?}, {total} bytes of names: symbol {i} is {got:?}");
    }
    Ok(())
}
