//! Lookups against enumeration (C20). The file is enumerated from memory; lookups then run in a seeded order through
//! memory or through the real cache over a simulated stream, on the unified and the format-specific interface.
use crate::ctx::{Ctx, R};
use crate::elfgen;
use crate::ensure;
use crate::observe::{self, Obs, hex, plan, query, rflags, section_info, symbol_info, txt};
use crate::sc_read;
use crate::simio::{SourceCfg, through_stream};
use object::read::elf::{ElfFile, FileHeader, SectionHeader as _, Sym as _};
use object::read::pe::{ImageNtHeaders, PeFile};
use object::read::*;
use object::{LittleEndian as LE, SectionKind, SymbolKind, SymbolScope};

pub struct SecE {
    index: usize,
    name: Option<Vec<u8>>,
    addr: u64,
    size: u64,
    kind: SectionKind,
    info: Vec<(String, String)>,
    data: Option<Vec<u8>>,
    relocs: Vec<(u64, Relocation)>,
}
pub struct SymE {
    index: usize,
    name: Option<Vec<u8>>,
    addr: u64,
    size: u64,
    def: bool,
    kind: SymbolKind,
    scope: SymbolScope,
    label: bool,
    info: Vec<(String, String)>,
}
struct SegE {
    addr: u64,
    data: Option<Vec<u8>>,
}
#[derive(Default)]
pub struct Enum {
    secs: Vec<SecE>,
    segs: Vec<SegE>,
    syms: Vec<SymE>,
    dyns: Vec<SymE>,
    has_table: bool,
    has_dyn: bool,
    xcoff: bool,
    wasm: bool,
    elf: bool,
    macho: bool,
}

fn sym_info<'d, S: ObjectSymbol<'d>>(s: &S) -> Vec<(String, String)> {
    let mut o = Obs::new(0);
    symbol_info(s, "sym", &mut o);
    o.out
}
fn sec_info<'d, S: ObjectSection<'d>>(s: &S) -> Vec<(String, String)> {
    let mut o = Obs::new(0);
    section_info(s, &mut o);
    o.out
}
fn sym_e<'d, S: ObjectSymbol<'d>>(s: &S) -> SymE {
    let label = match s.flags() {
        object::SymbolFlags::Xcoff { x_smtyp, .. } => x_smtyp.0 & 7 == 2,
        _ => false,
    };
    SymE {
        index: s.index().0,
        name: s.name_bytes().ok().map(|n| n.to_vec()),
        addr: s.address(),
        size: s.size(),
        def: s.is_definition(),
        kind: s.kind(),
        scope: s.scope(),
        label,
        info: sym_info(s),
    }
}

/// Everything there is, by enumeration alone.
pub fn enumerate<'d, O: Object<'d>>(o: &O, fmt: object::BinaryFormat) -> Enum {
    let mut e = Enum {
        has_table: o.symbol_table().is_some(),
        has_dyn: o.dynamic_symbol_table().is_some(),
        xcoff: fmt == object::BinaryFormat::Xcoff,
        wasm: fmt == object::BinaryFormat::Wasm,
        elf: fmt == object::BinaryFormat::Elf,
        macho: fmt == object::BinaryFormat::MachO,
        ..Enum::default()
    };
    for s in o.sections().take(400) {
        e.secs.push(SecE {
            index: s.index().0,
            name: s.name_bytes().ok().map(|n| n.to_vec()),
            addr: s.address(),
            size: s.size(),
            kind: s.kind(),
            info: sec_info(&s),
            data: s.data().ok().map(|d| d.to_vec()),
            relocs: s.relocations().take(3000).collect(),
        });
    }
    for s in o.segments().take(100) {
        e.segs.push(SegE { addr: s.address(), data: s.data().ok().map(|d| d.to_vec()) });
    }
    e.syms = o.symbols().take(5000).map(|s| sym_e(&s)).collect();
    e.dyns = o.dynamic_symbols().take(5000).map(|s| sym_e(&s)).collect();
    e
}

fn absent_index(ctx: &mut Ctx, used: &[usize]) -> usize {
    let top = used.iter().max().copied().unwrap_or(0);
    match ctx.c.below(6) {
        0 => top + 1,
        1 => top + 2 + ctx.c.idx(1000),
        2 => u32::MAX as usize,
        3 => usize::MAX,
        4 => (u32::MAX as usize) + 1 + ctx.c.idx(top + 1),
        _ => 0,
    }
}

/// A name to look for: of an item, derived from one, or made up.
fn a_name(ctx: &mut Ctx, names: &[Option<&[u8]>]) -> Vec<u8> {
    let mut n: Vec<u8> = if names.is_empty() { b".text".to_vec() } else { names[ctx.c.idx(names.len())].unwrap_or(b"").to_vec() };
    match ctx.c.below(12) {
        0 => {
            n.pop();
        }
        1 => n.push(*ctx.c.pick(b"x_0@.")),
        2 => {
            if !n.is_empty() {
                n.remove(0);
            }
        }
        3 => {
            if !n.is_empty() {
                let i = ctx.c.idx(n.len());
                n[i] ^= 0x20;
            }
        }
        4 => n = Vec::new(),
        5 => {
            if n.starts_with(b".z") {
                n.remove(1);
            } else if n.starts_with(b"__") {
                n.splice(0..2, *b".");
            } else {
                n.splice(0..0, *b".");
            }
        }
        6 => {
            if let Some(t) = n.strip_prefix(b"__zdebug_") {
                n = [b".debug_", t].concat();
            } else if n.starts_with(b".debug_") {
                n.insert(1, b'z');
            } else {
                n.splice(0..0, *b"__");
            }
        }
        7 => n = ctx.c.pick(&[&b".debug_info"[..], b".debug_str_offsets", b".text", b"__debug_str_offs", b".", b"__", b".zdebug_line", b".debug_"]).to_vec(),
        _ => {}
    }
    n
}

fn section_name_matches(e: &Enum, n: &[u8], want: &[u8]) -> bool {
    if n == want {
        return true;
    }
    if e.macho {
        let cut = |s: &[u8], k: usize| s[..s.len().min(16 - k)].to_vec();
        if let (Some(w), Some(t)) = (want.strip_prefix(b"."), n.strip_prefix(b"__")) {
            if t == cut(w, 2) {
                return true;
            }
        }
        if let (Some(w), Some(t)) = (want.strip_prefix(b".debug_"), n.strip_prefix(b"__zdebug_")) {
            if t == cut(w, 9) {
                return true;
            }
        }
    }
    false
}

fn find_section<'a>(e: &'a Enum, want: &[u8]) -> Option<&'a SecE> {
    let f = e.secs.iter().find(|s| s.name.as_deref().is_some_and(|n| section_name_matches(e, n, want)));
    if f.is_none() && e.elf {
        if let Some(w) = want.strip_prefix(b".debug_") {
            let z = [&b".zdebug_"[..], w].concat();
            return e.secs.iter().find(|s| s.name.as_deref() == Some(&z));
        }
    }
    f
}

fn range_of(data: &[u8], base: u64, a: u64, n: u64) -> Option<&[u8]> {
    let off = a.checked_sub(base)?;
    let len = data.len() as u64;
    if off > len || n > len - off {
        return None;
    }
    Some(&data[off as usize..(off + n) as usize])
}

fn a_range(ctx: &mut Ctx, base: u64, len: u64) -> (u64, u64) {
    let a = match ctx.c.below(7) {
        0 => base,
        1 => base.wrapping_add(len),
        2 => base.wrapping_sub(1),
        3 => base.wrapping_add(len).wrapping_add(1),
        4 => ctx.c.u64(),
        _ => base.wrapping_add(if len == 0 { 0 } else { ctx.c.below(len) }),
    };
    let left = base.wrapping_add(len).wrapping_sub(a);
    let n = match ctx.c.below(7) {
        0 => 0,
        1 => 1,
        2 => left,
        3 => left.wrapping_add(1),
        4 => u64::MAX,
        5 => u64::MAX - a,
        _ => ctx.c.below(len + 2),
    };
    (a, n)
}

fn expect_sym<'d, S: ObjectSymbol<'d>>(what: &str, got: Option<S>, want: Option<&SymE>) -> R {
    match (got, want) {
        (None, None) => {}
        (Some(s), Some(w)) => {
            ensure!(s.index().0 == w.index, format!("{what}-other"), "{what} gave symbol {} instead of {}", s.index().0, w.index);
            let i = sym_info(&s);
            ensure!(i == w.info, format!("{what}-differs"), "{what} of symbol {}:\n{i:?}\nenumerated:\n{:?}", w.index, w.info);
        }
        (Some(s), None) => ensure!(false, format!("{what}-extra"), "{what} gave symbol {} ({:?}), enumeration has none", s.index().0, s.name_bytes().map(txt)),
        (None, Some(w)) => ensure!(false, format!("{what}-missing"), "{what} does not find symbol {} {:?}", w.index, w.name.as_deref().map(txt)),
    }
    Ok(())
}

fn expect_sec<'d, S: ObjectSection<'d>>(what: &str, got: Option<S>, want: Option<&SecE>) -> R {
    match (got, want) {
        (None, None) => {}
        (Some(s), Some(w)) => {
            let i = sec_info(&s);
            ensure!(i == w.info, format!("{what}-differs"), "{what}: got section {}\n{i:?}\nenumerated {}:\n{:?}", s.index().0, w.index, w.info);
            ensure!(s.data().ok().map(|d| d.to_vec()) == w.data, format!("{what}-data"), "{what}: data of section {} differs", w.index);
        }
        (Some(s), None) => ensure!(false, format!("{what}-extra"), "{what} gave section {} ({:?}), enumeration has none", s.index().0, s.name_bytes().map(txt)),
        (None, Some(w)) => ensure!(false, format!("{what}-missing"), "{what} does not find section {} {:?}", w.index, w.name.as_deref().map(txt)),
    }
    Ok(())
}

/// The symbol map that the enumeration of symbols and sections gives: address, size, name.
fn model_map(e: &Enum) -> Option<Vec<(u64, u64, Vec<u8>)>> {
    let table = if e.has_table { &e.syms } else { &e.dyns };
    // the order in which equal addresses are preferred
    let mut cand: Vec<(u64, (u32, bool, bool, u32), std::cmp::Reverse<usize>, &SymE)> = Vec::new();
    let mut ends: Vec<u64> = Vec::new();
    for s in table {
        if !s.def {
            continue;
        }
        let Some(n) = s.name.as_deref() else { continue };
        if std::str::from_utf8(n).is_err() || n.is_empty() {
            continue;
        }
        let k = match s.kind {
            SymbolKind::Text | SymbolKind::Data => 0,
            SymbolKind::Unknown => 1,
            _ => continue,
        };
        let sc = match s.scope {
            SymbolScope::Unknown => 3,
            SymbolScope::Compilation => 2,
            SymbolScope::Linkage => 1,
            SymbolScope::Dynamic => 0,
        };
        if s.addr == u64::MAX {
            return None;
        }
        if e.xcoff && s.size != 0 {
            ends.push(s.addr.saturating_add(s.size));
        }
        cand.push((s.addr, (k, e.xcoff && !s.label, s.size == 0, sc), std::cmp::Reverse(s.index), s));
    }
    for s in &e.secs {
        ends.push(s.addr.saturating_add(s.size));
    }
    cand.sort_by_key(|c| (c.0, c.1, c.2));
    cand.dedup_by_key(|c| c.0);
    let bounds: std::collections::BTreeSet<u64> = cand.iter().map(|c| c.0).chain(ends.iter().copied().filter(|e| *e != u64::MAX)).collect();
    Some(
        cand.iter()
            .map(|c| {
                let size = match c.3.size {
                    0 => bounds.range(c.0 + 1..).next().map_or(0, |b| b - c.0),
                    z => z,
                };
                (c.0, size, c.3.name.clone().unwrap())
            })
            .collect(),
    )
}

fn addresses(ctx: &mut Ctx, pts: &[(u64, u64)], n: usize) -> Vec<u64> {
    let mut v = Vec::new();
    for _ in 0..n {
        if pts.is_empty() {
            v.push(ctx.c.u64());
            continue;
        }
        let (a, z) = pts[ctx.c.idx(pts.len())];
        v.push(match ctx.c.below(8) {
            0 => a,
            1 => a.wrapping_sub(1),
            2 => a.wrapping_add(1),
            3 => a.wrapping_add(z),
            4 => a.wrapping_add(z).wrapping_sub(1),
            5 => *ctx.c.pick(&[0, u64::MAX, u32::MAX as u64, 1 << 63]),
            6 => ctx.c.u64(),
            _ => a.wrapping_add(if z == 0 { 0 } else { ctx.c.below(z) }),
        });
    }
    v
}

fn symbol_map(ctx: &mut Ctx, m: &SymbolMap<SymbolMapName<'_>>, e: Option<&Enum>) -> R {
    let entries: Vec<(u64, u64, Vec<u8>)> = m.symbols().iter().map(|s| (s.address(), s.size(), s.name().as_bytes().to_vec())).collect();
    if let Some(want) = e.and_then(model_map) {
        if entries != want {
            let k = entries.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(entries.len().min(want.len()));
            ensure!(
                false, "symbol-map-content", "symbol map has {} entries, enumeration gives {}; entry {k}: {:?} instead of {:?}",
                entries.len(), want.len(), entries.get(k), want.get(k)
            );
        }
        ctx.probe("symbol_map_checked");
    }
    let pts: Vec<(u64, u64)> = entries.iter().map(|x| (x.0, x.1)).collect();
    for a in addresses(ctx, &pts, 12) {
        let before = entries.iter().filter(|x| x.0 <= a).max_by_key(|x| x.0);
        let got = m.before(a).map(|s| (s.address(), s.size(), s.name().as_bytes().to_vec()));
        ensure!(got.as_ref() == before, "symbol-before", "before({a:#x}) = {got:?}, enumeration gives {before:?}");
        let cont = before.filter(|x| x.1 == 0 || a - x.0 < x.1);
        let got = m.containing(a).map(|s| (s.address(), s.size(), s.name().as_bytes().to_vec()));
        ensure!(got.as_ref() == cont, "symbol-containing", "containing({a:#x}) = {got:?}, enumeration gives {cont:?}");
    }
    Ok(())
}

fn object_map(ctx: &mut Ctx, m: &ObjectMap<'_>) -> R {
    let entries: Vec<(u64, u64, Vec<u8>, usize)> = m.symbols().iter().map(|s| (s.address(), s.size(), s.name().to_vec(), s.object_index())).collect();
    let pts: Vec<(u64, u64)> = entries.iter().map(|x| (x.0, x.1)).collect();
    for a in addresses(ctx, &pts, 12) {
        // several entries may start at the same address
        let top = entries.iter().filter(|x| x.0 <= a).map(|x| x.0).max();
        let at: Vec<_> = entries.iter().filter(|x| Some(x.0) == top).collect();
        let fits = |x: &(u64, u64, Vec<u8>, usize)| x.1 == 0 || a - x.0 < x.1;
        match m.get(a) {
            Some(s) => {
                let g = (s.address(), s.size(), s.name().to_vec(), s.object_index());
                ensure!(at.contains(&&g) && fits(&g), "object-map-get", "get({a:#x}) = {g:?}, enumeration gives {at:?}");
                ensure!(s.object(m) as *const _ == &m.objects()[s.object_index()] as *const _, "object-map-file", "object() of {g:?} is not its file");
            }
            None => ensure!(at.is_empty() || !at.iter().all(|x| fits(x)), "object-map-miss", "get({a:#x}) finds nothing, enumeration gives {at:?}"),
        }
    }
    Ok(())
}

fn relocation_map<'d, O: Object<'d>>(ctx: &mut Ctx, o: &O, e: &Enum, k: usize) -> R {
    let s = &e.secs[k];
    let Ok(sec) = o.section_by_index(SectionIndex(s.index)) else { return Ok(()) };
    // what adding the relocations one by one should give
    let mut want: Option<std::collections::BTreeMap<u64, (bool, u64)>> = Some(Default::default());
    for (off, r) in &s.relocs {
        let Some(map) = &mut want else { break };
        if r.kind() == object::RelocationKind::None {
            continue;
        }
        let mut add = r.addend() as u64;
        let mut ok = r.kind() == object::RelocationKind::Absolute && r.encoding() == object::RelocationEncoding::Generic;
        match r.target() {
            RelocationTarget::Symbol(i) => match e.syms.iter().find(|x| x.index == i.0) {
                Some(x) => add = add.wrapping_add(x.addr),
                None => match o.symbol_by_index(i) {
                    Ok(x) => add = add.wrapping_add(x.address()),
                    Err(_) => ok = false,
                },
            },
            RelocationTarget::Section(i) => match e.secs.iter().find(|x| x.index == i.0) {
                Some(x) => {
                    if x.kind != SectionKind::Debug {
                        add = add.wrapping_add(x.addr)
                    }
                }
                None => ok = false,
            },
            _ => ok = false,
        }
        if !ok || map.insert(*off, (r.has_implicit_addend(), add)).is_some() {
            want = None;
        }
    }
    if s.relocs.len() >= 3000 {
        return Ok(());
    }
    match (sec.relocation_map(), want) {
        (Err(_), None) => {}
        (Err(err), Some(w)) => {
            ensure!(false, "relocation-map-refused", "relocation map of section {} ({} relocations) refused: {err}", s.index, w.len());
        }
        (Ok(_), None) => {
            // targets this enumeration does not list
            ctx.probe("relocation_map_more");
        }
        (Ok(m), Some(w)) => {
            ctx.probe("relocation_map");
            let pts: Vec<(u64, u64)> = w.keys().map(|o| (*o, 4)).collect();
            for off in addresses(ctx, &pts, 8) {
                let v = ctx.c.u64();
                let exp = match w.get(&off) {
                    Some((true, a)) => v.wrapping_add(*a),
                    Some((false, a)) => *a,
                    None => v,
                };
                let got = m.relocate(off, v);
                ensure!(got == exp, "relocate", "relocate({off:#x}, {v:#x}) in section {} = {got:#x}, the relocations give {exp:#x}", s.index);
            }
        }
    }
    Ok(())
}

/// One seeded lookup on an interface.
fn lookup<'d, O: Object<'d>>(ctx: &mut Ctx, o: &O, e: &Enum) -> R {
    let sec_ix: Vec<usize> = e.secs.iter().map(|s| s.index).collect();
    match ctx.c.below(14) {
        0 => {
            let present = !e.secs.is_empty() && ctx.c.chance(2, 3);
            let i = if present { sec_ix[ctx.c.idx(sec_ix.len())] } else { absent_index(ctx, &sec_ix) };
            let same: Vec<&SecE> = e.secs.iter().filter(|s| s.index == i).collect();
            if same.len() > 1 || e.secs.len() >= 400 || (i == 0 && e.elf) {
                return Ok(());
            }
            ctx.ev(|| format!("section_by_index({i})"));
            expect_sec("section-by-index", o.section_by_index(SectionIndex(i)).ok(), same.first().copied())
        }
        1 | 2 => {
            let names: Vec<Option<&[u8]>> = e.secs.iter().map(|s| s.name.as_deref()).collect();
            let n = a_name(ctx, &names);
            if e.secs.len() >= 400 {
                return Ok(());
            }
            let want = find_section(e, &n);
            ctx.ev(|| format!("section_by_name({}) -> {:?}", txt(&n), want.map(|s| s.index)));
            expect_sec("section-by-name", o.section_by_name_bytes(&n), want)?;
            if let Ok(t) = std::str::from_utf8(&n) {
                expect_sec("section-by-name", o.section_by_name(t), want)?;
            }
            Ok(())
        }
        3 | 4 => {
            let dynamic = e.has_dyn && ctx.c.chance(1, 3);
            let syms = if dynamic { &e.dyns } else { &e.syms };
            let ix: Vec<usize> = syms.iter().map(|s| s.index).collect();
            let present = !ix.is_empty() && ctx.c.chance(3, 4);
            let i = if present { ix[ctx.c.idx(ix.len())] } else { absent_index(ctx, &ix) };
            let want = syms.iter().find(|s| s.index == i);
            // entries that enumeration skips: the null symbol, debugging entries and auxiliary entries
            if want.is_none() && i <= ix.iter().max().copied().unwrap_or(0) + 1 + 400 {
                return Ok(());
            }
            if syms.len() >= 5000 {
                return Ok(());
            }
            ctx.ev(|| format!("symbol_by_index({i}) dynamic={dynamic}"));
            if dynamic {
                expect_sym("dynamic-symbol-by-index", o.dynamic_symbol_table().and_then(|t| t.symbol_by_index(SymbolIndex(i)).ok()), want)
            } else {
                expect_sym("symbol-by-index", o.symbol_by_index(SymbolIndex(i)).ok(), want)?;
                if e.has_table {
                    expect_sym("symbol-table-by-index", o.symbol_table().and_then(|t| t.symbol_by_index(SymbolIndex(i)).ok()), want)?;
                }
                Ok(())
            }
        }
        5 | 6 => {
            let names: Vec<Option<&[u8]>> = e.syms.iter().map(|s| s.name.as_deref()).collect();
            let n = a_name(ctx, &names);
            if e.syms.len() >= 5000 {
                return Ok(());
            }
            let want = e.syms.iter().find(|s| s.name.as_deref() == Some(&n));
            ctx.ev(|| format!("symbol_by_name({}) -> {:?}", txt(&n), want.map(|s| s.index)));
            expect_sym("symbol-by-name", o.symbol_by_name_bytes(&n), want)?;
            if let Ok(t) = std::str::from_utf8(&n) {
                expect_sym("symbol-by-name", o.symbol_by_name(t), want)?;
            }
            Ok(())
        }
        7 | 8 => {
            if e.secs.is_empty() {
                return Ok(());
            }
            let k = ctx.c.idx(e.secs.len());
            let w = &e.secs[k];
            let len = w.data.as_ref().map_or(0, |d| d.len() as u64);
            let (a, n) = a_range(ctx, w.addr, len);
            let Some(s) = o.sections().nth(k) else { return Ok(()) };
            ctx.ev(|| format!("section {} data_range({a:#x}, {n:#x})", w.index));
            let got = s.data_range(a, n).map(|d| d.map(|d| d.to_vec()));
            match &w.data {
                None => ensure!(!matches!(got, Ok(Some(_))), "section-range", "section {} has no data but data_range({a:#x},{n:#x}) gives some", w.index),
                Some(d) => {
                    let want = range_of(d, w.addr, a, n).map(|d| d.to_vec());
                    ensure!(
                        got == Ok(want.clone()), "section-range", "section {} at {:#x}+{len:#x}: data_range({a:#x},{n:#x}) = {:?}, its data gives {:?}",
                        w.index, w.addr, got.as_ref().map(|g| g.as_deref().map(hex)), want.as_deref().map(hex)
                    );
                }
            }
            Ok(())
        }
        9 => {
            if e.segs.is_empty() {
                return Ok(());
            }
            let k = ctx.c.idx(e.segs.len());
            let w = &e.segs[k];
            let len = w.data.as_ref().map_or(0, |d| d.len() as u64);
            let (a, n) = a_range(ctx, w.addr, len);
            let Some(s) = o.segments().nth(k) else { return Ok(()) };
            let got = s.data_range(a, n).map(|d| d.map(|d| d.to_vec()));
            if let Some(d) = &w.data {
                let want = range_of(d, w.addr, a, n).map(|d| d.to_vec());
                ensure!(
                    got == Ok(want.clone()), "segment-range", "segment {k} at {:#x}+{len:#x}: data_range({a:#x},{n:#x}) = {:?}, its data gives {:?}",
                    w.addr, got.as_ref().map(|g| g.as_deref().map(hex)), want.as_deref().map(hex)
                );
            }
            Ok(())
        }
        10 => {
            let full = e.syms.len() < 5000 && e.dyns.len() < 5000 && e.secs.len() < 400;
            let m = o.symbol_map();
            symbol_map(ctx, &m, full.then_some(e))
        }
        11 => {
            let m = o.object_map();
            object_map(ctx, &m)
        }
        12 => {
            let with: Vec<usize> = (0..e.secs.len()).filter(|k| !e.secs[*k].relocs.is_empty()).collect();
            if with.is_empty() || e.wasm {
                return Ok(());
            }
            let k = *ctx.c.pick(&with);
            relocation_map(ctx, o, e, k)
        }
        _ => {
            // references between items lead to the item enumerated under that index
            if e.syms.is_empty() || e.wasm {
                return Ok(());
            }
            let w = &e.syms[ctx.c.idx(e.syms.len())];
            let Ok(s) = o.symbol_by_index(SymbolIndex(w.index)) else { return Ok(()) };
            if let Some(i) = s.section_index() {
                let want = e.secs.iter().find(|s| s.index == i.0);
                if let (Some(want), true) = (want, i.0 != 0) {
                    expect_sec("section-of-symbol", o.section_by_index(i).ok(), Some(want))?;
                }
            }
            Ok(())
        }
    }
}

macro_rules! with_inner {
    ($file:expr, $f:ident => $body:expr) => {
        match $file {
            File::Coff($f) => $body,
            File::CoffBig($f) => $body,
            File::Elf32($f) => $body,
            File::Elf64($f) => $body,
            File::MachO32($f) => $body,
            File::MachO64($f) => $body,
            File::Pe32($f) => $body,
            File::Pe64($f) => $body,
            File::Wasm($f) => $body,
            File::Xcoff32($f) => $body,
            File::Xcoff64($f) => $body,
            _ => Ok(()),
        }
    };
}

/// The unified and the specific interface say the same.
fn same<'d, O: Object<'d>, R2: ReadRef<'d>>(ctx: &mut Ctx, u: &File<'d, R2>, s: &O) -> R {
    let p = plan(u, 60);
    for _ in 0..3 {
        let q = *ctx.c.pick(&p);
        let (mut a, mut b) = (Obs::new(100_000), Obs::new(100_000));
        query(u, q, &mut a);
        query(s, q, &mut b);
        if a.out != b.out {
            let k = a.out.iter().zip(&b.out).position(|(x, y)| x != y).unwrap_or(a.out.len().min(b.out.len()));
            ensure!(false, "interfaces-differ", "{q:?}: unified {:?}, specific {:?}", a.out.get(k), b.out.get(k));
        }
    }
    let _ = observe::NONE;
    Ok(())
}

// ---- PE

fn pe_lookups<'d, Pe: ImageNtHeaders, R2: ReadRef<'d>>(ctx: &mut Ctx, f: &PeFile<'d, Pe, R2>) -> R {
    let data = f.data();
    let secs = f.section_table();
    let dirs = f.data_directories();
    let hs: Vec<&object::pe::ImageSectionHeader> = secs.iter().collect();
    let pts: Vec<(u64, u64)> = hs
        .iter()
        .flat_map(|h| {
            let va = h.virtual_address.get(LE) as u64;
            [(va, h.virtual_size.get(LE) as u64), (va, h.size_of_raw_data.get(LE) as u64)]
        })
        .collect();
    for a in addresses(ctx, &pts, 10) {
        let va = a as u32;
        let inside = |h: &&&object::pe::ImageSectionHeader, n: u32| va as u64 >= h.virtual_address.get(LE) as u64 && (va as u64) < h.virtual_address.get(LE) as u64 + n as u64;
        let stored = |h: &object::pe::ImageSectionHeader| h.virtual_size.get(LE).min(h.size_of_raw_data.get(LE));
        let want = hs.iter().find(|h| inside(h, h.virtual_size.get(LE))).map(|h| *h as *const _);
        let got = secs.section_containing(va).map(|h| h as *const _);
        ensure!(want == got, "pe-section-containing", "section_containing({va:#x}) is not the section enumeration gives");
        let want: Option<(u32, u32)> = hs.iter().find(|h| inside(h, stored(h))).and_then(|h| {
            let off = va - h.virtual_address.get(LE);
            Some((h.pointer_to_raw_data.get(LE).checked_add(off)?, stored(h) - off))
        });
        ensure!(secs.pe_file_range_at(va) == want, "pe-file-range-at", "pe_file_range_at({va:#x}) = {:?}, the headers give {want:?}", secs.pe_file_range_at(va));
        let bytes = |o: u32, n: u32| data.read_bytes_at(o as u64, n as u64).ok();
        let want = want.and_then(|(o, n)| bytes(o, n));
        let got = secs.pe_data_at(data, va);
        if want.is_some() || got.is_none() {
            ensure!(got == want, "pe-data-at", "pe_data_at({va:#x}) = {:?}, the headers give {:?}", got.map(hex), want.map(hex));
        }
        let want = hs.iter().find(|h| inside(h, stored(h))).and_then(|h| Some((bytes(h.pointer_to_raw_data.get(LE), stored(h))?, h.virtual_address.get(LE))));
        let got = secs.pe_data_containing(data, va);
        if want.is_some() || got.is_none() {
            ensure!(got == want, "pe-data-containing", "pe_data_containing({va:#x}) is not the data of the section that contains it");
        }
    }
    let n = dirs.len();
    for (i, d) in dirs.enumerate() {
        let g = dirs.get(i);
        let empty = d.virtual_address.get(LE) == 0;
        ensure!(g.map(|g| g as *const _) == (!empty).then_some(d as *const _), "pe-directory", "directory {i} of {n} by index is not the enumerated one");
    }
    ensure!(dirs.get(n).is_none() && dirs.get(usize::MAX).is_none(), "pe-directory", "a directory beyond the last is found");
    if let Ok(Some(t)) = f.export_table() {
        exports(ctx, f, &t)?;
    }
    Ok(())
}

fn exports<'d, Pe: ImageNtHeaders, R2: ReadRef<'d>>(ctx: &mut Ctx, f: &PeFile<'d, Pe, R2>, t: &object::read::pe::ExportTable<'d>) -> R {
    use object::read::pe::{ExportAddressIndex, ExportOrdinal, ExportTarget};
    let all: Vec<(u16, u16, u32)> = t.address_iter().map(|(i, o, a)| (i.0, o.0, a)).collect();
    ctx.probe("pe_exports");
    for (k, x) in all.iter().enumerate() {
        ensure!(x.0 as usize == k && x.1 as usize == t.ordinal_base() as usize + k, "export-order", "address entry {k} has index {} ordinal {}", x.0, x.1);
    }
    let tgt = |x: &ExportTarget<'_>| format!("{x:?}");
    for _ in 0..8 {
        let base = t.ordinal_base();
        let o = match ctx.c.below(6) {
            0 => base.wrapping_sub(1),
            1 => base.wrapping_add(all.len() as u16),
            2 => ctx.c.u64() as u16,
            3 => *ctx.c.pick(&[0, u16::MAX]),
            _ => base.wrapping_add(ctx.c.idx(all.len().max(1)) as u16),
        };
        let want = all.iter().find(|x| x.1 == o);
        let (gi, ga, gt) = (t.index_from_ordinal(ExportOrdinal(o)), t.address_by_ordinal(ExportOrdinal(o)), t.target_by_ordinal(ExportOrdinal(o)));
        ensure!(gi.map(|i| i.0).ok() == want.map(|x| x.0), "export-by-ordinal", "index_from_ordinal({o}) = {:?}, enumeration gives {want:?}", t.index_from_ordinal(ExportOrdinal(o)).ok());
        ensure!(ga.ok() == want.map(|x| x.2), "export-by-ordinal", "address_by_ordinal({o}) = {:?}, enumeration gives {want:?}", ga.ok());
        let exp = want.and_then(|x| t.target_from_address(x.2).ok());
        ensure!(gt.as_ref().ok().map(tgt) == exp.as_ref().map(tgt), "export-by-ordinal", "target_by_ordinal({o}) = {:?}, enumeration gives {exp:?}", gt.ok());
        let i = match ctx.c.below(4) {
            0 => all.len() as u16,
            1 => ctx.c.u64() as u16,
            _ => ctx.c.idx(all.len().max(1)) as u16,
        };
        let want = all.iter().find(|x| x.0 == i);
        ensure!(t.address_by_index(ExportAddressIndex(i)).ok() == want.map(|x| x.2), "export-by-index", "address_by_index({i}) is not {want:?}");
        ensure!(t.ordinal_from_index(ExportAddressIndex(i)).ok().map(|o| o.0) == want.map(|x| x.1), "export-by-index", "ordinal_from_index({i}) is not {want:?}");
        let exp = want.and_then(|x| t.target_from_address(x.2).ok());
        ensure!(t.target_by_index(ExportAddressIndex(i)).ok().as_ref().map(tgt) == exp.as_ref().map(tgt), "export-by-index", "target_by_index({i}) is not {exp:?}");
    }
    // the parsed list, the name table and the unified iterator
    let names: Vec<(Option<Vec<u8>>, u16)> = t.name_iter().map(|(p, i)| (t.name_from_pointer(p).ok().map(|n| n.to_vec()), i.0)).collect();
    if let Ok(v) = t.exports() {
        ensure!(v.len() == all.len(), "export-list", "{} exports, {} addresses", v.len(), all.len());
        for (k, x) in v.iter().enumerate() {
            let last = names.iter().rev().find(|n| n.1 as usize == k).and_then(|n| n.0.clone());
            ensure!(x.ordinal.0 == all[k].1 && x.name.map(|n| n.to_vec()) == last, "export-list", "export {k}: {x:?}, the tables give ordinal {} name {:?}", all[k].1, last.as_deref().map(txt));
            let tg = t.target_from_address(all[k].2).ok();
            ensure!(Some(tgt(&x.target)) == tg.as_ref().map(tgt), "export-list", "export {k}: {x:?}, its address gives {tg:?}");
        }
        // every name once, then every unnamed address that is used, by ordinal
        let mut want: Vec<(String, String)> = Vec::new();
        for (n, i) in &names {
            if let (Some(n), Some(x)) = (n, all.get(*i as usize)) {
                want.push((format!("{:?}", NameKey::Name(n.clone())), t.target_from_address(x.2).map(|t| tgt(&t)).unwrap_or_default()));
            }
        }
        for x in &all {
            if x.2 != 0 && !names.iter().any(|n| n.1 == x.0) {
                want.push((format!("{:?}", NameKey::Ordinal(x.1)), t.target_from_address(x.2).map(|t| tgt(&t)).unwrap_or_default()));
            }
        }
        if let Ok(it) = f.exports() {
            let base = f.relative_address_base();
            let mut got: Vec<(String, String)> = Vec::new();
            let mut bad = false;
            for x in it {
                match x {
                    Ok(x) => {
                        let k = match x.name() {
                            NameOrOrdinal::Name(n) => NameKey::Name(n.to_vec()),
                            NameOrOrdinal::Ordinal(o) => NameKey::Ordinal(o),
                        };
                        let g = match x.target() {
                            object::read::ExportTarget::Address { address } => tgt(&ExportTarget::Address((address.wrapping_sub(base)) as u32)),
                            object::read::ExportTarget::Reexport { library, name } => {
                                let lib = library.to_vec();
                                match name {
                                    NameOrOrdinal::Name(n) => tgt(&ExportTarget::ForwardByName(&lib, n)),
                                    NameOrOrdinal::Ordinal(o) => tgt(&ExportTarget::ForwardByOrdinal(&lib, ExportOrdinal(o))),
                                }
                            }
                            t => format!("{t:?}"),
                        };
                        got.push((format!("{k:?}"), g));
                    }
                    Err(_) => bad = true,
                }
            }
            got.sort();
            want.sort();
            if !bad {
                if got != want {
                    let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                    ensure!(false, "export-iterator", "unified exports {} vs {}: {:?} instead of {:?}", got.len(), want.len(), got.get(k), want.get(k));
                }
                ctx.probe("export_iterator");
            }
        }
    }
    Ok(())
}

#[derive(Debug)]
#[allow(dead_code)]
enum NameKey {
    Name(Vec<u8>),
    Ordinal(u16),
}

// ---- ELF

fn elf_lookups<'d, E: FileHeader, R2: ReadRef<'d>>(ctx: &mut Ctx, f: &ElfFile<'d, E, R2>) -> R {
    let en = f.endian();
    let data = f.data();
    let secs = f.elf_section_table();
    let hs: Vec<&E::SectionHeader> = secs.iter().collect();
    // section headers by name and index
    let names: Vec<Option<&[u8]>> = hs.iter().map(|h| secs.section_name(en, h).ok()).collect();
    for _ in 0..4 {
        let n = a_name(ctx, &names);
        let want = names.iter().skip(1).position(|x| *x == Some(&n[..])).map(|x| x + 1);
        let got = secs.section_by_name(en, &n).map(|x| x.0.0);
        ensure!(want == got, "elf-section-by-name", "section_by_name({}) = {got:?}, enumeration gives {want:?}", txt(&n));
        let i = absent_index(ctx, &[hs.len().saturating_sub(1)]);
        ensure!(secs.section(SectionIndex(i)).is_ok() == (i != 0 && i < hs.len()), "elf-section-index", "section({i}) of {}", hs.len());
    }
    // tables by type
    for ty in [object::elf::SHT_SYMTAB, object::elf::SHT_DYNSYM] {
        let want = hs.iter().position(|h| h.sh_type(en) == ty);
        if let Ok(t) = secs.symbols(en, data, ty) {
            ensure!(t.section().0 == want.unwrap_or(0), "elf-symbol-table", "symbol table of type {} is section {:?}, the first one is {want:?}", ty.0, t.section());
            if let Some(w) = want {
                let b = secs.symbol_table_by_index(en, data, SectionIndex(w));
                ensure!(b.as_ref().is_ok_and(|b| b.len() == t.len() && b.section() == t.section()), "elf-symbol-table-index", "symbol table {w} by index differs");
                // extended section indices
                for (i, s) in t.enumerate() {
                    let direct = s.st_shndx(en);
                    if direct.0 < 0xff00 && direct.0 != 0 {
                        ensure!(t.symbol_section(en, s, i) == Ok(Some(SectionIndex(direct.0 as usize))), "elf-symbol-section", "section of symbol {} is not {direct:?}", i.0);
                    }
                }
            }
        }
    }
    // relocation sections of a section
    if let Some(st) = hs.iter().position(|h| h.sh_type(en) == object::elf::SHT_SYMTAB) {
        if let Ok(rs) = secs.relocation_sections(en, SectionIndex(st)) {
            for t in 1..hs.len() {
                // of a relocation section, this is the next one of the same target
                if matches!(hs[t].sh_type(en), object::elf::SHT_REL | object::elf::SHT_RELA | object::elf::SHT_CREL) {
                    continue;
                }
                let mut want: Vec<usize> = hs
                    .iter()
                    .enumerate()
                    .filter(|(_, h)| matches!(h.sh_type(en), object::elf::SHT_REL | object::elf::SHT_RELA | object::elf::SHT_CREL))
                    .filter(|(_, h)| h.info_link(en).0 == t && h.link(en).0 == st)
                    .map(|x| x.0)
                    .collect();
                let mut got = Vec::new();
                let mut next = rs.get(SectionIndex(t));
                while let Some(i) = next {
                    got.push(i.0);
                    if got.len() > hs.len() {
                        break;
                    }
                    next = rs.get(i);
                }
                want.sort();
                got.sort();
                ensure!(want == got, "elf-relocation-sections", "relocation sections of {t}: {got:?}, enumeration gives {want:?}");
            }
        }
    }
    // dynamic symbols through hash tables
    let Ok(syms) = secs.symbols(en, data, object::elf::SHT_DYNSYM) else { return Ok(()) };
    let Ok(vers) = secs.versions(en, data) else { return Ok(()) };
    let vers = vers.unwrap_or_default();
    let list: Vec<(usize, Option<&[u8]>)> = syms.enumerate().map(|(i, s)| (i.0, syms.symbol_name(en, s).ok())).collect();
    let names: Vec<Option<&[u8]>> = list.iter().map(|x| x.1).collect();
    let sysv = secs.hash(en, data).ok().flatten();
    let gnu = secs.gnu_hash(en, data).ok().flatten();
    let nsyms = list.len();
    if let Some((h, _)) = &sysv {
        ensure!(h.symbol_table_length() as usize == nsyms, "hash-length", "hash table says {} symbols of {nsyms}", h.symbol_table_length());
    }
    if let Some((h, _)) = &gnu {
        if let Some(n) = h.symbol_table_length(en) {
            ensure!(n as usize == nsyms, "gnu-hash-length", "GNU hash table says {n} symbols of {nsyms}");
        }
    }
    if sysv.is_none() && gnu.is_none() {
        return Ok(());
    }
    for _ in 0..6 {
        let n = a_name(ctx, &names);
        // a version of a random symbol, or none
        let ver = if ctx.c.chance(1, 2) && nsyms > 0 {
            let k = ctx.c.idx(nsyms);
            vers.version(vers.version_index(en, SymbolIndex(k)).index()).ok().flatten()
        } else {
            None
        };
        let fits = |i: usize| -> bool {
            let vi = vers.version_index(en, SymbolIndex(i));
            match (vers.version(vi.index()), ver) {
                (Err(_), _) => false,
                (Ok(None), None) => true,
                (Ok(None), Some(_)) => false,
                (Ok(Some(_)), None) => !vi.is_hidden(),
                (Ok(Some(a)), Some(b)) => a.name() == b.name() && a.hash() == b.hash(),
            }
        };
        let m: Vec<usize> = list.iter().filter(|x| x.0 != 0 && x.1 == Some(&n[..]) && fits(x.0)).map(|x| x.0).collect();
        ctx.ev(|| format!("hash find {} version {:?} -> {m:?}", txt(&n), ver.map(|v| txt(v.name()))));
        if let Some((h, _)) = &sysv {
            let got = h.find(en, &n, object::elf::hash(&n), ver, &syms, &vers).map(|x| x.0.0);
            ensure!(got.map_or(m.is_empty(), |g| m.contains(&g)), "hash-find", "SysV hash finds {got:?} for {} (version {:?}), enumeration gives {m:?}", txt(&n), ver.map(|v| txt(v.name())));
        }
        if let Some((h, _)) = &gnu {
            let base = h.symbol_base() as usize;
            let m: Vec<usize> = m.iter().copied().filter(|i| *i >= base).collect();
            // only definitions need to be in this table
            let defined = m.iter().any(|i| syms.symbol(SymbolIndex(*i)).is_ok_and(|s| !s.is_undefined(en)));
            let got = h.find(en, &n, object::elf::gnu_hash(&n), ver, &syms, &vers).map(|x| x.0.0);
            ensure!(got.map_or(!defined, |g| m.contains(&g)), "gnu-hash-find", "GNU hash finds {got:?} for {} (version {:?}), enumeration gives {m:?}", txt(&n), ver.map(|v| txt(v.name())));
            if !m.is_empty() {
                ctx.probe("gnu_hash_hit");
            }
        }
        ctx.probe("hash_lookup");
    }
    Ok(())
}

// ---- driver

fn run_on<'d, R2: ReadRef<'d>>(ctx: &mut Ctx, f: &File<'d, R2>, e: &Enum, ops: usize) -> R {
    for _ in 0..ops {
        match ctx.c.below(8) {
            0..=3 => lookup(ctx, f, e)?,
            4 | 5 => with_inner!(f, g => lookup(ctx, g, e))?,
            6 => with_inner!(f, g => same(ctx, f, g))?,
            _ => match f {
                File::Pe32(g) => pe_lookups(ctx, g)?,
                File::Pe64(g) => pe_lookups(ctx, g)?,
                File::Elf32(g) => elf_lookups(ctx, g)?,
                File::Elf64(g) => elf_lookups(ctx, g)?,
                _ => lookup(ctx, f, e)?,
            },
        }
    }
    Ok(())
}

pub fn all_lookups(ctx: &mut Ctx, data: &[u8]) -> R {
    let Ok(f) = File::parse(data) else { return Ok(()) };
    let e = enumerate(&f, f.format());
    ctx.sig(crate::choices::fnv(data));
    let ops = 6 + ctx.c.idx(30);
    if ctx.c.chance(1, 2) {
        run_on(ctx, &f, &e, ops)
    } else {
        let cfg = SourceCfg::benign(ctx);
        let c: *mut Ctx = ctx;
        through_stream(ctx, data, cfg, |r| {
            let ctx = unsafe { &mut *c };
            match File::parse(r) {
                Ok(f) => run_on(ctx, &f, &e, ops),
                Err(err) => crate::ctx::violation("stream-refused", format!("through the stream: {err}")),
            }
        })
    }
}

fn corpus(ctx: &mut Ctx) -> R {
    let i = sc_read::consistent(ctx)?;
    // archives, fat binaries and caches have no lookups of this kind
    all_lookups(ctx, &i.data)
}

fn elf(ctx: &mut Ctx) -> R {
    let data = elfgen::elf(ctx);
    ctx.fold_bytes(&data);
    all_lookups(ctx, &data)
}

fn pe(ctx: &mut Ctx) -> R {
    let data = elfgen::pe(ctx, true);
    ctx.fold_bytes(&data);
    ensure!(File::parse(&data[..]).is_ok(), "pe-refused", "a generated PE image is refused: {:?}", File::parse(&data[..]).err());
    all_lookups(ctx, &data)
}

fn macho(ctx: &mut Ctx) -> R {
    let g = elfgen::macho(ctx);
    ctx.fold_bytes(&g.data);
    let f = match File::parse(&g.data[..]) {
        Ok(f) => f,
        Err(err) => return crate::ctx::violation("macho-refused", format!("a generated Mach-O file is refused: {err}")),
    };
    // the object map, from the debugging entries
    let m = f.object_map();
    let mut got: Vec<(u64, u64, Vec<u8>, Vec<u8>, Option<Vec<u8>>)> = m
        .symbols()
        .iter()
        .map(|s| {
            let o = s.object(&m);
            (s.address(), s.size(), s.name().to_vec(), o.path().to_vec(), o.member().map(|m| m.to_vec()))
        })
        .collect();
    let sorted = got.windows(2).all(|w| w[0].0 <= w[1].0);
    ensure!(sorted, "object-map-order", "the object map is not sorted by address");
    let mut want = g.functions.clone();
    got.sort();
    want.sort();
    if got != want {
        let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        ensure!(false, "object-map-content", "{} entries instead of {}; {:?} instead of {:?}", got.len(), want.len(), got.get(k), want.get(k));
    }
    if !want.is_empty() {
        ctx.probe("object_map_checked");
    }
    // the exports trie
    if let File::MachO64(f) = &f {
        let mut got = Vec::new();
        for x in f.exports().map_err(|e| crate::ctx::Violation { class: "trie".into(), detail: format!("exports refused: {e}") })? {
            match x {
                Ok(x) => got.push((x.name().name().map(|n| n.to_vec()).unwrap_or_default(), format!("{:?}", x.target()))),
                Err(e) => return crate::ctx::violation("trie", format!("export refused: {e}")),
            }
        }
        let mut want: Vec<(Vec<u8>, String)> = g.exports.iter().map(|x| (x.0.clone(), x.1.clone())).collect();
        got.sort();
        want.sort();
        if got != want {
            let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            ensure!(false, "trie-content", "{} exports instead of {}; {:?} instead of {:?}", got.len(), want.len(), got.get(k), want.get(k));
        }
        if !want.is_empty() {
            ctx.probe("exports_trie_checked");
        }
    }
    let _ = rflags;
    all_lookups(ctx, &g.data)
}

pub fn props(v: &mut Vec<crate::runner::Prop>) {
    v.push(crate::runner::Prop {
        id: "C20",
        level: "exploration",
        rule: "distinct shapes of files looked up in",
        scenarios: vec![("corpus", 4, corpus as _), ("elf", 4, elf as _), ("pe", 2, pe as _), ("macho", 2, macho as _)],
        real: &["src/read/** (unified and per-format readers)", "src/read/symbol_map.rs", "src/read/elf/hash.rs", "src/read/elf/version.rs", "src/read/pe/export.rs", "src/read/macho/exports_trie.rs", "src/read/read_cache.rs"],
        stub: &["the stored file and its stream (simulated source under the real ReadCache)"],
        assumptions: &[
            "items are matched with the enumeration of the same file read from memory; symbol indexes that enumeration skips are not judged",
        ],
        quick_secs: 30,
        thorough_secs: 600,
    });
}
